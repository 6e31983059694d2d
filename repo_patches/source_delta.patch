From 7b45ddcd618b29398999860f02df5c71aa0e61c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 001/101] fix: mult_hehe must not access elements of an empty
 matrix

---
 include/tlapack/lapack/mult_hehe.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/mult_hehe.hpp b/include/tlapack/lapack/mult_hehe.hpp
index 3943cc8..0016533 100644
--- a/include/tlapack/lapack/mult_hehe.hpp
+++ b/include/tlapack/lapack/mult_hehe.hpp
@@ -70,7 +70,10 @@ void mult_hehe(Uplo uplo,
 
     if (m != n) return;
 
-    if (n <= 1) {
+    // quick return
+    if (n == 0) return;
+
+    if (n == 1) {
         C(0, 0) = alpha * real(A(0, 0)) * real(B(0, 0)) + beta * C(0, 0);
         return;
     }
-- 
2.43.0


From fa6cb25cbf1b1f266a0b5b1cd74c62354f892fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 002/101] fix: mult_hehe must not print to standard output

---
 include/tlapack/lapack/mult_hehe.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/tlapack/lapack/mult_hehe.hpp b/include/tlapack/lapack/mult_hehe.hpp
index 0016533..58674f4 100644
--- a/include/tlapack/lapack/mult_hehe.hpp
+++ b/include/tlapack/lapack/mult_hehe.hpp
@@ -140,8 +140,6 @@ void mult_hehe(Uplo uplo,
         auto C10 = slice(C, range(n0, n), range(0, n0));
         auto C11 = slice(C, range(n0, n), range(n0, n));
 
-        std::cout << std::endl;
-
         // A00*B00 = C00
         mult_hehe(LOWER_TRIANGLE, alpha, A00, B00, beta, C00);
 
-- 
2.43.0


From 3b01687bae08b580a859424b71d9e41a7859e837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 003/101] fix: make the hemm2 overload without beta callable
 and forward transB

---
 include/tlapack/lapack/hemm2.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/hemm2.hpp b/include/tlapack/lapack/hemm2.hpp
index ea6454f..a40524b 100644
--- a/include/tlapack/lapack/hemm2.hpp
+++ b/include/tlapack/lapack/hemm2.hpp
@@ -399,7 +399,7 @@ template <TLAPACK_MATRIX matrixA_t,
           disable_if_allow_optblas_t<pair<matrixA_t, T>,
                                      pair<matrixB_t, T>,
                                      pair<matrixC_t, T>,
-                                     pair<alpha_t, T>>>
+                                     pair<alpha_t, T>> = 0>
 void hemm2(Side side,
            Uplo uplo,
            Op transB,
@@ -408,7 +408,7 @@ void hemm2(Side side,
            const matrixB_t& B,
            matrixC_t& C)
 {
-    return hemm2(side, uplo, alpha, A, B, StrongZero(), C);
+    return hemm2(side, uplo, transB, alpha, A, B, StrongZero(), C);
 }
 
 }  // namespace tlapack
-- 
2.43.0


From 5426769d91f489a202665c3fd97a2401daef5287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 004/101] fix: trsm_tri must return on empty matrices instead
 of recursing forever

---
 include/tlapack/lapack/trsm_tri.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tlapack/lapack/trsm_tri.hpp b/include/tlapack/lapack/trsm_tri.hpp
index 8330517..4315779 100644
--- a/include/tlapack/lapack/trsm_tri.hpp
+++ b/include/tlapack/lapack/trsm_tri.hpp
@@ -118,6 +118,9 @@ void trsm_tri(Side sideA,
 
     idx_t n = nrows(A);
 
+    // quick return
+    if (n == 0) return;
+
     // lascl(uploB, T(1.), alpha, B); this does not work
 
     if (uploB == Uplo::Upper) {
-- 
2.43.0


From 7c609475066f53ff48794a6633c81f58a821b8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 005/101] fix: trmm_out must return on empty matrices instead
 of recursing forever

---
 include/tlapack/lapack/trmm_out.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tlapack/lapack/trmm_out.hpp b/include/tlapack/lapack/trmm_out.hpp
index 4772496..acea4b0 100644
--- a/include/tlapack/lapack/trmm_out.hpp
+++ b/include/tlapack/lapack/trmm_out.hpp
@@ -99,6 +99,9 @@ void trmm_out(Side side,
     m = (transB == Op::NoTrans) ? nrows(B) : ncols(B);
     n = (transB == Op::NoTrans) ? ncols(B) : nrows(B);
 
+    // quick return
+    if (m == 0 || n == 0) return;
+
     if (transB == Op::NoTrans) {
         if (uplo == Uplo::Upper) {
             if (diag == Diag::NonUnit) {
-- 
2.43.0


From fc2830ea7a11054b751335fe2c7ab84d18bf1711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 006/101] fix: rotmg must not reset the off-diagonal entries at
 every rescaling step

---
 include/tlapack/blas/rotmg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/blas/rotmg.hpp b/include/tlapack/blas/rotmg.hpp
index 5c760ce..e9aaf86 100644
--- a/include/tlapack/blas/rotmg.hpp
+++ b/include/tlapack/blas/rotmg.hpp
@@ -161,7 +161,7 @@ int rotmg(T& d1, T& d2, T& a, const T& b, T h[4])
                         h[3] = one;
                         flag = -1;
                     }
-                    else {
+                    else if (flag == 1) {
                         h[1] = -one;
                         h[2] = one;
                         flag = -1;
@@ -188,7 +188,7 @@ int rotmg(T& d1, T& d2, T& a, const T& b, T h[4])
                         h[3] = one;
                         flag = -1;
                     }
-                    else {
+                    else if (flag == 1) {
                         h[1] = -one;
                         h[2] = one;
                         flag = -1;
-- 
2.43.0


From 7f8dda2726beda6879e2fbc754dffa3e84f97f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 007/101] fix: worksize of the unblocked orthogonal
 factorizations must accept empty matrices

---
 include/tlapack/lapack/gelq2.hpp | 3 ++-
 include/tlapack/lapack/geql2.hpp | 3 ++-
 include/tlapack/lapack/geqr2.hpp | 3 ++-
 include/tlapack/lapack/gerq2.hpp | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/gelq2.hpp b/include/tlapack/lapack/gelq2.hpp
index 995959d..a5421a2 100644
--- a/include/tlapack/lapack/gelq2.hpp
+++ b/include/tlapack/lapack/gelq2.hpp
@@ -36,8 +36,9 @@ constexpr WorkInfo gelq2_worksize(const matrix_t& A, const vector_t& tauw)
 
     // constants
     const idx_t m = nrows(A);
+    const idx_t n = ncols(A);
 
-    if (m > 1) {
+    if (m > 1 && n > 0) {
         auto&& C = rows(A, range{1, m});
         return larf_worksize<T>(RIGHT_SIDE, FORWARD, ROWWISE_STORAGE, row(A, 0),
                                 tauw[0], C);
diff --git a/include/tlapack/lapack/geql2.hpp b/include/tlapack/lapack/geql2.hpp
index 85e3684..a8a42ba 100644
--- a/include/tlapack/lapack/geql2.hpp
+++ b/include/tlapack/lapack/geql2.hpp
@@ -35,9 +35,10 @@ constexpr WorkInfo geql2_worksize(const matrix_t& A, const vector_t& tau)
     using range = pair<idx_t, idx_t>;
 
     // constants
+    const idx_t m = nrows(A);
     const idx_t n = ncols(A);
 
-    if (n > 1) {
+    if (n > 1 && m > 0) {
         auto&& C = cols(A, range{1, n});
         return larf_worksize<T>(LEFT_SIDE, BACKWARD, COLUMNWISE_STORAGE,
                                 col(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/geqr2.hpp b/include/tlapack/lapack/geqr2.hpp
index 33da9e0..1278091 100644
--- a/include/tlapack/lapack/geqr2.hpp
+++ b/include/tlapack/lapack/geqr2.hpp
@@ -35,9 +35,10 @@ constexpr WorkInfo geqr2_worksize(const matrix_t& A, const vector_t& tau)
     using range = pair<idx_t, idx_t>;
 
     // constants
+    const idx_t m = nrows(A);
     const idx_t n = ncols(A);
 
-    if (n > 1) {
+    if (n > 1 && m > 0) {
         auto&& C = cols(A, range{1, n});
         return larf_worksize<T>(LEFT_SIDE, FORWARD, COLUMNWISE_STORAGE,
                                 col(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/gerq2.hpp b/include/tlapack/lapack/gerq2.hpp
index 2957910..7ab327b 100644
--- a/include/tlapack/lapack/gerq2.hpp
+++ b/include/tlapack/lapack/gerq2.hpp
@@ -36,8 +36,9 @@ constexpr WorkInfo gerq2_worksize(const matrix_t& A, const vector_t& tau)
 
     // constants
     const idx_t m = nrows(A);
+    const idx_t n = ncols(A);
 
-    if (m > 1) {
+    if (m > 1 && n > 0) {
         auto&& C = rows(A, range{1, m});
         return larf_worksize<T>(RIGHT_SIDE, BACKWARD, ROWWISE_STORAGE,
                                 row(A, 0), tau[0], C);
-- 
2.43.0


From 147c6e217147cc682f54088eb4d4cc8266aa7fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 008/101] fix: gelqt must update the rows below the last block
 when m > n

---
 include/tlapack/lapack/gelqt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/gelqt.hpp b/include/tlapack/lapack/gelqt.hpp
index 943b309..1017eaa 100644
--- a/include/tlapack/lapack/gelqt.hpp
+++ b/include/tlapack/lapack/gelqt.hpp
@@ -86,7 +86,7 @@ int gelqt_work(matrix_t& A, matrix_t& TT, work_t& work)
         // . . . H(j+ib-1)
         larft(FORWARD, ROWWISE_STORAGE, A11, tauw1, TT1);
 
-        if (j + ib < k) {
+        if (j + ib < m) {
             // Apply H to A(j+ib:m,j:n) from the right
             auto A12 = slice(A, range(j + ib, m), range(j, n));
             auto work1 = slice(TT, range(j + ib, m), range(0, ib));
-- 
2.43.0


From d3afa502db2ea4a6dda1171aeed7ee151a559dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 009/101] fix: hessenberg_rq must return on an empty matrix

---
 include/tlapack/lapack/hessenberg_rq.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/hessenberg_rq.hpp b/include/tlapack/lapack/hessenberg_rq.hpp
index b326709..3509020 100644
--- a/include/tlapack/lapack/hessenberg_rq.hpp
+++ b/include/tlapack/lapack/hessenberg_rq.hpp
@@ -54,10 +54,9 @@ inline void hessenberg_rq(T_t& T, CL_t& cl, SL_t& sl, CR_t& cr, SR_t& sr)
 
     // constants
     const idx_t n = ncols(T);
-    const idx_t k = n - 1;
 
     // quick return
-    if (k < 1) return;
+    if (n < 2) return;
 
     // Apply rotations to last column
     for (idx_t j = n - 2; j != (idx_t)-1; --j) {
-- 
2.43.0


From a455133d19bb425a61ba20d8467910b3e5dc4277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 010/101] fix: larf must compare the size of x with the
 matching dimension of C1

---
 include/tlapack/lapack/larf.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/larf.hpp b/include/tlapack/lapack/larf.hpp
index 49426ec..a2fe9cf 100644
--- a/include/tlapack/lapack/larf.hpp
+++ b/include/tlapack/lapack/larf.hpp
@@ -68,7 +68,7 @@ void larf_work(side_t side,
     tlapack_check(side == Side::Left || side == Side::Right);
     tlapack_check(storeMode == StoreV::Columnwise ||
                   storeMode == StoreV::Rowwise);
-    tlapack_check((idx_t)size(x) == (side == Side::Left) ? m : n);
+    tlapack_check((idx_t)size(x) == ((side == Side::Left) ? m : n));
 
     // Quick return if possible
     if (m == 0 || n == 0) {
@@ -282,7 +282,7 @@ void larf(side_t side,
     tlapack_check(side == Side::Left || side == Side::Right);
     tlapack_check(storeMode == StoreV::Columnwise ||
                   storeMode == StoreV::Rowwise);
-    tlapack_check((idx_t)size(x) == (side == Side::Left) ? m : n);
+    tlapack_check((idx_t)size(x) == ((side == Side::Left) ? m : n));
 
     // Quick return if possible
     if (m == 0 || n == 0) {
-- 
2.43.0


From d24bc06b29ad1c2fad04515f6484296780f097b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 011/101] fix: generating Q from an empty set of reflectors
 must return part of the identity

---
 include/tlapack/lapack/ung2l.hpp       | 2 +-
 include/tlapack/lapack/ung2r.hpp       | 2 +-
 include/tlapack/lapack/ungl2.hpp       | 2 +-
 include/tlapack/lapack/ungq.hpp        | 6 ++++++
 include/tlapack/lapack/ungq_level2.hpp | 4 ++--
 include/tlapack/lapack/ungr2.hpp       | 2 +-
 6 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/tlapack/lapack/ung2l.hpp b/include/tlapack/lapack/ung2l.hpp
index 7995846..152e4ba 100644
--- a/include/tlapack/lapack/ung2l.hpp
+++ b/include/tlapack/lapack/ung2l.hpp
@@ -38,7 +38,7 @@ constexpr WorkInfo ung2l_worksize(const matrix_t& A, const vector_t& tau)
     // constants
     const idx_t n = ncols(A);
 
-    if (n > 1) {
+    if (n > 1 && size(tau) > 0) {
         auto&& C = cols(A, range{1, n});
         return larf_worksize<T>(LEFT_SIDE, BACKWARD, COLUMNWISE_STORAGE,
                                 col(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/ung2r.hpp b/include/tlapack/lapack/ung2r.hpp
index 3657fcd..646d2af 100644
--- a/include/tlapack/lapack/ung2r.hpp
+++ b/include/tlapack/lapack/ung2r.hpp
@@ -38,7 +38,7 @@ constexpr WorkInfo ung2r_worksize(const matrix_t& A, const vector_t& tau)
     // constants
     const idx_t n = ncols(A);
 
-    if (n > 1) {
+    if (n > 1 && size(tau) > 0) {
         auto&& C = cols(A, range{1, n});
         return larf_worksize<T>(LEFT_SIDE, FORWARD, COLUMNWISE_STORAGE,
                                 col(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/ungl2.hpp b/include/tlapack/lapack/ungl2.hpp
index 52681a1..3346734 100644
--- a/include/tlapack/lapack/ungl2.hpp
+++ b/include/tlapack/lapack/ungl2.hpp
@@ -38,7 +38,7 @@ constexpr WorkInfo ungl2_worksize(const matrix_t& Q, const vector_t& tauw)
     // constants
     const idx_t k = nrows(Q);
 
-    if (k > 1) {
+    if (k > 1 && size(tauw) > 0) {
         auto&& C = rows(Q, range{1, k});
         return larf_worksize<T>(RIGHT_SIDE, FORWARD, ROWWISE_STORAGE, row(Q, 0),
                                 tauw[0], C);
diff --git a/include/tlapack/lapack/ungq.hpp b/include/tlapack/lapack/ungq.hpp
index 304d7f5..afc5d4b 100644
--- a/include/tlapack/lapack/ungq.hpp
+++ b/include/tlapack/lapack/ungq.hpp
@@ -72,6 +72,9 @@ constexpr WorkInfo ungq_worksize(direction_t direction,
     const idx_t k = size(tau);
     const idx_t nb = min((idx_t)opts.nb, k);
 
+    // No reflectors: Q is a part of the identity
+    if (k == 0) return WorkInfo(0);
+
     WorkInfo workinfo;
     auto&& V = (storeMode == StoreV::Columnwise)
                    ? slice(A, range{0, m}, range{0, nb})
@@ -164,6 +167,9 @@ int ungq_work(direction_t direction,
     // quick return
     if (m <= 0 || n <= 0) return 0;
 
+    // No reflectors: Q is a part of the identity
+    if (k == 0) return ungq_level2_work(direction, storeMode, A, tau, work);
+
     // Matrix matrixT
     auto [matrixT, work1] =
         (min(m, n) > nb) ? reshape(work, nb, nb) : reshape(work, 0, 0);
diff --git a/include/tlapack/lapack/ungq_level2.hpp b/include/tlapack/lapack/ungq_level2.hpp
index 3b39478..e90142c 100644
--- a/include/tlapack/lapack/ungq_level2.hpp
+++ b/include/tlapack/lapack/ungq_level2.hpp
@@ -61,13 +61,13 @@ constexpr WorkInfo ungq_level2_worksize(direction_t direction,
     const idx_t n = ncols(A);
 
     if (storeMode == StoreV::Columnwise) {
-        return (n > 1)
+        return (n > 1 && size(tau) > 0)
                    ? larf_worksize<T>(LEFT_SIDE, direction, COLUMNWISE_STORAGE,
                                       col(A, 0), tau[0], cols(A, range{1, n}))
                    : WorkInfo(0);
     }
     else {
-        return (m > 1)
+        return (m > 1 && size(tau) > 0)
                    ? larf_worksize<T>(RIGHT_SIDE, direction, ROWWISE_STORAGE,
                                       row(A, 0), tau[0], rows(A, range{1, m}))
                    : WorkInfo(0);
diff --git a/include/tlapack/lapack/ungr2.hpp b/include/tlapack/lapack/ungr2.hpp
index 8a92e8f..b3df24b 100644
--- a/include/tlapack/lapack/ungr2.hpp
+++ b/include/tlapack/lapack/ungr2.hpp
@@ -38,7 +38,7 @@ constexpr WorkInfo ungr2_worksize(const matrix_t& A, const vector_t& tau)
     // constants
     const idx_t m = nrows(A);
 
-    if (m > 1) {
+    if (m > 1 && size(tau) > 0) {
         auto&& C = rows(A, range{1, m});
         return larf_worksize<T>(RIGHT_SIDE, BACKWARD, ROWWISE_STORAGE,
                                 row(A, 0), tau[0], C);
-- 
2.43.0


From 769b3c9f7cba25651adf1dd571ad8593b4cf2bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 012/101] fix: ul_mult must return on empty matrices instead of
 recursing forever

---
 include/tlapack/lapack/ul_mult.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/ul_mult.hpp b/include/tlapack/lapack/ul_mult.hpp
index f9ba976..d652105 100644
--- a/include/tlapack/lapack/ul_mult.hpp
+++ b/include/tlapack/lapack/ul_mult.hpp
@@ -44,7 +44,7 @@ int ul_mult(matrix_t& A)
     const idx_t n = ncols(A);
 
     // if L and U are 1-by-1, then L is 1 and we simply UL=A(0,0)
-    if (n == 1) return 0;
+    if (n <= 1) return 0;
 
     // if n>1
     idx_t n0 = n / 2;
-- 
2.43.0


From 54e1bc4250a24bcd24f1bfad21c7a09d5d10ff3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 013/101] fix: getri_uxli must accept empty matrices

---
 include/tlapack/lapack/getri_uxli.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/getri_uxli.hpp b/include/tlapack/lapack/getri_uxli.hpp
index e778b59..ff745de 100644
--- a/include/tlapack/lapack/getri_uxli.hpp
+++ b/include/tlapack/lapack/getri_uxli.hpp
@@ -29,7 +29,7 @@ template <class T, TLAPACK_SMATRIX matrix_t>
 constexpr WorkInfo getri_uxli_worksize(const matrix_t& A)
 {
     if constexpr (is_same_v<T, type_t<matrix_t>>)
-        return WorkInfo(ncols(A) - 1);
+        return WorkInfo((ncols(A) > 0) ? ncols(A) - 1 : 0);
     else
         return WorkInfo(0);
 }
@@ -55,6 +55,9 @@ int getri_uxli_work(matrix_t& A, work_t& work)
     // check arguments
     tlapack_check(nrows(A) == n);
 
+    // quick return
+    if (n <= 0) return 0;
+
     // Vector W
     auto [W, work2] = reshape(work, n - 1);
 
-- 
2.43.0


From 2646ec460b138e7b0640228f1fc3269344b0dfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 014/101] fix: getri_worksize must call getri_uxli_worksize
 with its actual parameters

---
 include/tlapack/lapack/getri.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/getri.hpp b/include/tlapack/lapack/getri.hpp
index 3696427..ccd0b2b 100644
--- a/include/tlapack/lapack/getri.hpp
+++ b/include/tlapack/lapack/getri.hpp
@@ -49,7 +49,7 @@ constexpr WorkInfo getri_worksize(const matrix_t& A,
                                   const GetriOpts& opts = {})
 {
     if (opts.variant == GetriVariant::UXLI)
-        return getri_uxli_worksize<T>(A, opts);
+        return getri_uxli_worksize<T>(A);
 
     return WorkInfo(0);
 }
-- 
2.43.0


From 3c66ee21010bc1a372d45956f5a0e8e165027f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 015/101] fix: trtri_recursive must report the position of the
 zero diagonal in the whole matrix

---
 include/tlapack/lapack/trtri_recursive.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/trtri_recursive.hpp b/include/tlapack/lapack/trtri_recursive.hpp
index 33cc52a..fa34d8b 100644
--- a/include/tlapack/lapack/trtri_recursive.hpp
+++ b/include/tlapack/lapack/trtri_recursive.hpp
@@ -93,7 +93,8 @@ int trtri_recursive(uplo_t uplo,
 
             trsm(RIGHT_SIDE, LOWER_TRIANGLE, NO_TRANS, diag, T(-1), C00, C10);
             trsm(LEFT_SIDE, LOWER_TRIANGLE, NO_TRANS, diag, T(+1), C11, C10);
-            int info = trtri_recursive(LOWER_TRIANGLE, diag, C00, opts);
+            int info =
+                trtri_recursive(LOWER_TRIANGLE, diag, C00, NO_ERROR_CHECK);
 
             if (info != 0) {
                 tlapack_error_if(opts.ec.internal, info,
@@ -101,7 +102,7 @@ int trtri_recursive(uplo_t uplo,
                                  "matrix is exactly zero.");
                 return info;
             }
-            info = trtri_recursive(LOWER_TRIANGLE, diag, C11, opts);
+            info = trtri_recursive(LOWER_TRIANGLE, diag, C11, NO_ERROR_CHECK);
             if (info == 0)
                 return 0;
             else {
@@ -126,14 +127,15 @@ int trtri_recursive(uplo_t uplo,
 
             trsm(LEFT_SIDE, UPPER_TRIANGLE, NO_TRANS, diag, T(-1), C00, C01);
             trsm(RIGHT_SIDE, UPPER_TRIANGLE, NO_TRANS, diag, T(+1), C11, C01);
-            int info = trtri_recursive(UPPER_TRIANGLE, diag, C00, opts);
+            int info =
+                trtri_recursive(UPPER_TRIANGLE, diag, C00, NO_ERROR_CHECK);
             if (info != 0) {
                 tlapack_error_if(opts.ec.internal, info,
                                  "A diagonal of entry of triangular "
                                  "matrix is exactly zero.");
                 return info;
             }
-            info = trtri_recursive(UPPER_TRIANGLE, diag, C11, opts);
+            info = trtri_recursive(UPPER_TRIANGLE, diag, C11, NO_ERROR_CHECK);
             if (info == 0)
                 return 0;
             else {
-- 
2.43.0


From 26fd24351a6f471a5a94d89fd59a6ebce3c8b8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 016/101] fix: pttrf must accept a real diagonal with a complex
 subdiagonal

---
 include/tlapack/lapack/pttrf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/pttrf.hpp b/include/tlapack/lapack/pttrf.hpp
index f49eead..15dd54d 100644
--- a/include/tlapack/lapack/pttrf.hpp
+++ b/include/tlapack/lapack/pttrf.hpp
@@ -49,7 +49,7 @@ template <class d_t,
                       int> = 0>
 int pttrf(d_t& D, e_t& E, const EcOpts& opts = {})
 {
-    using T = type_t<d_t>;
+    using T = type_t<e_t>;
     using real_t = real_type<T>;
     using idx_t = size_type<d_t>;
     // Constants
-- 
2.43.0


From 93197a140c46e88b66bdc3af0233b63b5108b064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 017/101] fix: Cholesky variants must report the order in the
 whole matrix and honour the error-check options

---
 include/tlapack/lapack/potf2.hpp                  | 15 +++++++++------
 include/tlapack/lapack/potrf.hpp                  |  2 +-
 include/tlapack/lapack/potrf_blocked.hpp          | 14 +++++++-------
 .../lapack/potrf_blocked_right_looking.hpp        | 14 +++++++-------
 4 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/include/tlapack/lapack/potf2.hpp b/include/tlapack/lapack/potf2.hpp
index e08ccac..f5bc86c 100644
--- a/include/tlapack/lapack/potf2.hpp
+++ b/include/tlapack/lapack/potf2.hpp
@@ -46,6 +46,9 @@ namespace tlapack {
  *      - On successful exit, the factor U or L from the Cholesky
  *      factorization $A = U^H U$ or $A = L L^H.$
  *
+ * @param[in] opts Options.
+ *      Define the behavior of Exception Handling.
+ *
  * @return = 0: successful exit
  * @return i, 0 < i <= n, if the leading minor of order i is not
  *     positive definite, and the factorization could not be completed.
@@ -55,7 +58,7 @@ namespace tlapack {
 template <TLAPACK_UPLO uplo_t,
           TLAPACK_SMATRIX matrix_t,
           disable_if_allow_optblas_t<matrix_t> = 0>
-int potf2(uplo_t uplo, matrix_t& A)
+int potf2(uplo_t uplo, matrix_t& A, const EcOpts& opts = {})
 {
     using T = type_t<matrix_t>;
     using real_t = real_type<T>;
@@ -86,8 +89,8 @@ int potf2(uplo_t uplo, matrix_t& A)
                 A(j, j) = T(ajj);
             }
             else {
-                tlapack_error(
-                    j + 1,
+                tlapack_error_if(
+                    opts.ec.internal, j + 1,
                     "The leading minor of order j+1 is not positive definite,"
                     " and the factorization could not be completed.");
                 return j + 1;
@@ -122,8 +125,8 @@ int potf2(uplo_t uplo, matrix_t& A)
                 A(j, j) = T(ajj);
             }
             else {
-                tlapack_error(
-                    j + 1,
+                tlapack_error_if(
+                    opts.ec.internal, j + 1,
                     "The leading minor of order j+1 is not positive definite,"
                     " and the factorization could not be completed.");
                 return j + 1;
@@ -155,7 +158,7 @@ int potf2(uplo_t uplo, matrix_t& A)
 template <TLAPACK_UPLO uplo_t,
           TLAPACK_LEGACY_MATRIX matrix_t,
           enable_if_allow_optblas_t<matrix_t> = 0>
-int potf2(uplo_t uplo, matrix_t& A)
+int potf2(uplo_t uplo, matrix_t& A, const EcOpts& opts = {})
 {
     // Legacy objects
     auto A_ = legacy_matrix(A);
diff --git a/include/tlapack/lapack/potrf.hpp b/include/tlapack/lapack/potrf.hpp
index 8a8d0a8..4a0d724 100644
--- a/include/tlapack/lapack/potrf.hpp
+++ b/include/tlapack/lapack/potrf.hpp
@@ -91,7 +91,7 @@ int potrf(uplo_t uplo, matrix_t& A, const PotrfOpts& opts = {})
     else if (opts.variant == PotrfVariant::Recursive)
         return potrf2(uplo, A, opts);
     else if (opts.variant == PotrfVariant::Level2)
-        return potf2(uplo, A);
+        return potf2(uplo, A, opts);
     else
         return potrf_rl(uplo, A, opts);
 }
diff --git a/include/tlapack/lapack/potrf_blocked.hpp b/include/tlapack/lapack/potrf_blocked.hpp
index 376cd53..072564c 100644
--- a/include/tlapack/lapack/potrf_blocked.hpp
+++ b/include/tlapack/lapack/potrf_blocked.hpp
@@ -84,7 +84,7 @@ int potrf_blocked(uplo_t uplo, matrix_t& A, const BlockedCholeskyOpts& opts)
 
     // Unblocked code
     else if (nb >= n)
-        return potf2(uplo, A);
+        return potf2(uplo, A, opts);
 
     // Blocked code
     else {
@@ -98,10 +98,10 @@ int potrf_blocked(uplo_t uplo, matrix_t& A, const BlockedCholeskyOpts& opts)
 
                 herk(UPPER_TRIANGLE, CONJ_TRANS, -one, A1J, one, AJJ);
 
-                int info = potf2(UPPER_TRIANGLE, AJJ);
+                int info = potf2(UPPER_TRIANGLE, AJJ, NO_ERROR_CHECK);
                 if (info != 0) {
-                    tlapack_error(
-                        info + j,
+                    tlapack_error_if(
+                        opts.ec.internal, info + j,
                         "The leading minor of the reported order is not "
                         "positive definite,"
                         " and the factorization could not be completed.");
@@ -130,10 +130,10 @@ int potrf_blocked(uplo_t uplo, matrix_t& A, const BlockedCholeskyOpts& opts)
 
                 herk(LOWER_TRIANGLE, NO_TRANS, -one, AJ1, one, AJJ);
 
-                int info = potf2(LOWER_TRIANGLE, AJJ);
+                int info = potf2(LOWER_TRIANGLE, AJJ, NO_ERROR_CHECK);
                 if (info != 0) {
-                    tlapack_error(
-                        info + j,
+                    tlapack_error_if(
+                        opts.ec.internal, info + j,
                         "The leading minor of the reported order is not "
                         "positive definite,"
                         " and the factorization could not be completed.");
diff --git a/include/tlapack/lapack/potrf_blocked_right_looking.hpp b/include/tlapack/lapack/potrf_blocked_right_looking.hpp
index 12a5921..19cc934 100644
--- a/include/tlapack/lapack/potrf_blocked_right_looking.hpp
+++ b/include/tlapack/lapack/potrf_blocked_right_looking.hpp
@@ -79,7 +79,7 @@ int potrf_rl(uplo_t uplo, matrix_t& A, const BlockedCholeskyOpts& opts = {})
 
     // Unblocked code
     else if (nb >= n)
-        return potf2(uplo, A);
+        return potf2(uplo, A, opts);
 
     // Blocked code
     else {
@@ -90,10 +90,10 @@ int potrf_rl(uplo_t uplo, matrix_t& A, const BlockedCholeskyOpts& opts = {})
                 // Define AJJ
                 auto AJJ = slice(A, range{j, j + jb}, range{j, j + jb});
 
-                int info = potf2(UPPER_TRIANGLE, AJJ);
+                int info = potf2(UPPER_TRIANGLE, AJJ, NO_ERROR_CHECK);
                 if (info != 0) {
-                    tlapack_error(
-                        info + j,
+                    tlapack_error_if(
+                        opts.ec.internal, info + j,
                         "The leading minor of the reported order is not "
                         "positive definite,"
                         " and the factorization could not be completed.");
@@ -117,10 +117,10 @@ int potrf_rl(uplo_t uplo, matrix_t& A, const BlockedCholeskyOpts& opts = {})
                 // Define AJJ
                 auto AJJ = slice(A, range{j, j + jb}, range{j, j + jb});
 
-                int info = potf2(LOWER_TRIANGLE, AJJ);
+                int info = potf2(LOWER_TRIANGLE, AJJ, NO_ERROR_CHECK);
                 if (info != 0) {
-                    tlapack_error(
-                        info + j,
+                    tlapack_error_if(
+                        opts.ec.internal, info + j,
                         "The leading minor of the reported order is not "
                         "positive definite,"
                         " and the factorization could not be completed.");
-- 
2.43.0


From f48a368dc7a32c27a6adc875645fa0d6def29475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 018/101] fix: pbtrf_with_workspace must not use blocks wider
 than the band

---
 include/tlapack/lapack/pbtrf_with_workspace.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/lapack/pbtrf_with_workspace.hpp b/include/tlapack/lapack/pbtrf_with_workspace.hpp
index 07a0c00..c8aa67b 100644
--- a/include/tlapack/lapack/pbtrf_with_workspace.hpp
+++ b/include/tlapack/lapack/pbtrf_with_workspace.hpp
@@ -67,7 +67,8 @@ void pbtrf_with_workspace(uplo_t uplo,
 
     tlapack::Create<matrix_t> new_matrix;
 
-    const idx_t nb = opts.nb;
+    // blocks must not be wider than the band
+    const idx_t nb = min<idx_t>(opts.nb, (kd > 0) ? kd : 1);
 
     idx_t n = nrows(A);
 
@@ -85,7 +86,7 @@ void pbtrf_with_workspace(uplo_t uplo,
 
             potrf(uplo, A00);
 
-            if (i + ib < n) {
+            if (kd > 0 && i + ib < n) {
                 // i2 = min(kd - ib, n - i - ib)
                 idx_t i2 = (kd + i < n) ? kd - ib : n - i - ib;
                 // i3 = min(ib, n-i-kd)
@@ -158,7 +159,7 @@ void pbtrf_with_workspace(uplo_t uplo,
 
             potf2(tlapack::Uplo::Lower, A00);
 
-            if (i + ib <= n) {
+            if (kd > 0 && i + ib <= n) {
                 // i2 = min(kd - ib, n - i - ib)
                 idx_t i2 = (kd + i < n) ? kd - ib : n - i - ib;
                 // i3 = min(ib, n-i-kd)
-- 
2.43.0


From 0959238bae393312ed304f075d1809aacdece4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 019/101] fix: hetf3 must store the updated column when it is
 exactly zero

---
 include/tlapack/lapack/hetf3.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/hetf3.hpp b/include/tlapack/lapack/hetf3.hpp
index 0a4b965..af8dcd5 100644
--- a/include/tlapack/lapack/hetf3.hpp
+++ b/include/tlapack/lapack/hetf3.hpp
@@ -156,7 +156,8 @@ int hetf3(uplo_t uplo,
             if (max(colmax, abs_Ajj) == 0) {
                 piv = j;
                 info = (info == 0) ? j + 1 : info;
-                if (hermitian) A(j, j) = real(A(j, j));
+                // the updated column is zero
+                copy_(col(Wj0, jW), col(Aj0, j));
             }
             else {
                 if (abs_Ajj >= alpha * colmax) {
@@ -365,7 +366,8 @@ int hetf3(uplo_t uplo,
             if (max(colmax, abs_Ajj) == 0) {
                 piv = j;
                 info = (info == 0) ? j + 1 : info;
-                A(j, j) = real(A(j, j));
+                // the updated column is zero
+                copy_(col(Wj0, j), col(Aj0, j));
             }
             else {
                 if (abs_Ajj >= alpha * colmax) {
-- 
2.43.0


From dbdfaa3ca709d180bdf4b6793340dd903a99cec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 020/101] fix: hetrf_blocked must set the pivot of the last
 1-by-1 block and report it when it is zero

---
 include/tlapack/lapack/hetrf_blocked.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/hetrf_blocked.hpp b/include/tlapack/lapack/hetrf_blocked.hpp
index 41517ad..406c65d 100644
--- a/include/tlapack/lapack/hetrf_blocked.hpp
+++ b/include/tlapack/lapack/hetrf_blocked.hpp
@@ -84,7 +84,12 @@ int hetrf_blocked_work(uplo_t uplo,
             }
             j -= step;
         }
-        ipiv[0] = min(0, ipiv[0]);
+        if (j == 1) {
+            // 1-by-1 pivot block left over
+            ipiv[0] = 0;
+            if (opts.invariant == Op::ConjTrans) A(0, 0) = real(A(0, 0));
+            if (info == 0 && A(0, 0) == T(0)) info = 1;
+        }
     }
     else if (uplo == Uplo::Lower) {
         int j = 0;
@@ -111,7 +116,13 @@ int hetrf_blocked_work(uplo_t uplo,
             }
             j += step;
         }
-        if (ipiv[n - 1] >= 0) ipiv[n - 1] = n - 1;
+        if (j == n - 1) {
+            // 1-by-1 pivot block left over
+            ipiv[n - 1] = n - 1;
+            if (opts.invariant == Op::ConjTrans)
+                A(n - 1, n - 1) = real(A(n - 1, n - 1));
+            if (info == 0 && A(n - 1, n - 1) == T(0)) info = n;
+        }
     }
     return info;
 }
-- 
2.43.0


From eddfb4f7f7d08fbf149c0126e8d30712e32982e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 021/101] fix: hetrf_blocked must reject blocks that cannot
 hold a 2-by-2 pivot instead of looping forever

---
 include/tlapack/lapack/hetrf_blocked.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tlapack/lapack/hetrf_blocked.hpp b/include/tlapack/lapack/hetrf_blocked.hpp
index 406c65d..2eaaa98 100644
--- a/include/tlapack/lapack/hetrf_blocked.hpp
+++ b/include/tlapack/lapack/hetrf_blocked.hpp
@@ -66,6 +66,7 @@ int hetrf_blocked_work(uplo_t uplo,
     // check arguments
     tlapack_check(uplo == Uplo::Lower || uplo == Uplo::Upper);
     tlapack_check(nrows(A) == ncols(A));
+    tlapack_check(n <= 1 || nb >= 2);  // a block must fit a 2-by-2 pivot
 
     // Quick return
     if (n <= 0) return 0;
-- 
2.43.0


From 855ae03bb9dabca1ff4997b89b0c06bc7cbf1ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 022/101] fix: gehrd passes only the documented length of tau
 and accepts empty matrices and ranges

---
 include/tlapack/lapack/gehrd.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/tlapack/lapack/gehrd.hpp b/include/tlapack/lapack/gehrd.hpp
index 8a9ce5d..c3c29bc 100644
--- a/include/tlapack/lapack/gehrd.hpp
+++ b/include/tlapack/lapack/gehrd.hpp
@@ -119,15 +119,15 @@ int gehrd_work(size_type<matrix_t> ilo,
     // Size of the last block which be handled with unblocked code
     const idx_t nx = max(nb, (idx_t)opts.nx_switch);
 
+    // quick return
+    if (n <= 0) return 0;
+
     // check arguments
     tlapack_check_false((ilo < 0) or (ilo >= n));
     tlapack_check_false((ihi < 0) or (ihi > n));
     tlapack_check_false(ncols(A) != nrows(A));
     tlapack_check_false((idx_t)size(tau) < n - 1);
 
-    // quick return
-    if (n <= 0) return 0;
-
     // Matrices Y and T
     auto [Y, work2] = ((ilo < ihi) && (nx < ihi - ilo - 1))
                           ? reshape(work, n, nb)
@@ -139,12 +139,12 @@ int gehrd_work(size_type<matrix_t> ilo,
     laset(GENERAL, zero, zero, Y);
 
     idx_t i = ilo;
-    for (; i + nx < ihi - 1; i = i + nb) {
+    for (; i + nx + 1 < ihi; i = i + nb) {
         const idx_t nb2 = min(nb, ihi - i - 1);
 
         auto V = slice(A, range{i + 1, ihi}, range{i, i + nb2});
         auto A2 = slice(A, range{0, ihi}, range{i, ihi});
-        auto tau2 = slice(tau, range{i, ihi});
+        auto tau2 = slice(tau, range{i, ihi - 1});
         auto T_s = slice(matrixT, range{0, nb2}, range{0, nb2});
         auto Y_s = slice(Y, range{0, n}, range{0, nb2});
         lahr2(i, nb2, A2, tau2, T_s, Y_s);
-- 
2.43.0


From 8eca6be7bdd3a4f90494028307289542f88f6727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 023/101] fix: gehd2 accepts empty matrices and an empty active
 range

---
 include/tlapack/lapack/gehd2.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/lapack/gehd2.hpp b/include/tlapack/lapack/gehd2.hpp
index ef47ef2..1ec3486 100644
--- a/include/tlapack/lapack/gehd2.hpp
+++ b/include/tlapack/lapack/gehd2.hpp
@@ -87,12 +87,12 @@ int gehd2_work(size_type<matrix_t> ilo,
 
     // check arguments
     tlapack_check_false(ncols(A) != nrows(A));
-    tlapack_check_false((idx_t)size(tau) < n - 1);
+    tlapack_check_false((idx_t)size(tau) + 1 < n);
 
     // quick return
     if (n <= 0) return 0;
 
-    for (idx_t i = ilo; i < ihi - 1; ++i) {
+    for (idx_t i = ilo; i + 1 < ihi; ++i) {
         // Define v := A[i+1:ihi,i]
         auto v = slice(A, range{i + 1, ihi}, i);
 
@@ -166,7 +166,7 @@ int gehd2(size_type<matrix_t> ilo,
 
     // check arguments
     tlapack_check_false(ncols(A) != nrows(A));
-    tlapack_check_false((idx_t)size(tau) < n - 1);
+    tlapack_check_false((idx_t)size(tau) + 1 < n);
 
     // quick return
     if (n <= 0) return 0;
-- 
2.43.0


From acb7970b44359ff704e26fdea47c147ce67fbbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 024/101] fix: hetd2 accepts an empty matrix

---
 include/tlapack/lapack/hetd2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/hetd2.hpp b/include/tlapack/lapack/hetd2.hpp
index 76892a7..b89bb0c 100644
--- a/include/tlapack/lapack/hetd2.hpp
+++ b/include/tlapack/lapack/hetd2.hpp
@@ -60,7 +60,7 @@ int hetd2(uplo_t uplo, A_t& A, tau_t& tau)
     // check arguments
     tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper);
     tlapack_check(nrows(A) == ncols(A));
-    tlapack_check((idx_t)size(tau) >= n - 1);
+    tlapack_check((idx_t)size(tau) + 1 >= n);
 
     // quick return
     if (n <= 0) return 0;
-- 
2.43.0


From 48815fac4ac12d0aee16b4aaa5f865308f308c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 025/101] fix: unghr on an empty active range

---
 include/tlapack/lapack/unghr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/unghr.hpp b/include/tlapack/lapack/unghr.hpp
index b1d0b17..29a4d91 100644
--- a/include/tlapack/lapack/unghr.hpp
+++ b/include/tlapack/lapack/unghr.hpp
@@ -93,7 +93,8 @@ int unghr_work(size_type<matrix_t> ilo,
 
     // This is currently optimised for column matrices, it may be interesting
     // to also write these loops for row matrices
-    for (idx_t j = ihi - 1; j > ilo; --j) {
+    for (idx_t j1 = ihi; j1 > ilo + 1; --j1) {
+        const idx_t j = j1 - 1;
         for (idx_t i = 0; i < j; ++i) {
             A(i, j) = zero;
         }
-- 
2.43.0


From 197a568247f34ab911276b6446b9d40575f71833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 026/101] fix: unmhr on an empty active range

---
 include/tlapack/lapack/unmhr.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/tlapack/lapack/unmhr.hpp b/include/tlapack/lapack/unmhr.hpp
index 0a0a5de..fb6a118 100644
--- a/include/tlapack/lapack/unmhr.hpp
+++ b/include/tlapack/lapack/unmhr.hpp
@@ -59,6 +59,9 @@ constexpr WorkInfo unmhr_worksize(Side side,
     using idx_t = size_type<matrix_t>;
     using range = pair<idx_t, idx_t>;
 
+    // Q is the identity if there are no reflectors
+    if (ihi <= ilo + 1) return WorkInfo(0);
+
     auto&& A_s = slice(A, range{ilo + 1, ihi}, range{ilo, ihi - 1});
     auto&& tau_s = slice(tau, range{ilo, ihi - 1});
     auto&& C_s = (side == Side::Left)
@@ -92,6 +95,9 @@ int unmhr_work(Side side,
     using idx_t = size_type<matrix_t>;
     using range = pair<idx_t, idx_t>;
 
+    // Q is the identity if there are no reflectors
+    if (ihi <= ilo + 1) return 0;
+
     auto A_s = slice(A, range{ilo + 1, ihi}, range{ilo, ihi - 1});
     auto tau_s = slice(tau, range{ilo, ihi - 1});
     auto C_s = (side == Side::Left)
-- 
2.43.0


From 3655624e53897143032831cf1cb2fdb876f3489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 027/101] fix: gebd2 workspace query on a matrix without rows

---
 include/tlapack/lapack/gebd2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/gebd2.hpp b/include/tlapack/lapack/gebd2.hpp
index ad4fb98..18a6c39 100644
--- a/include/tlapack/lapack/gebd2.hpp
+++ b/include/tlapack/lapack/gebd2.hpp
@@ -45,7 +45,7 @@ constexpr WorkInfo gebd2_worksize(const matrix_t& A,
     const idx_t n = ncols(A);
 
     WorkInfo workinfo;
-    if (n > 1) {
+    if (m > 0 && n > 1) {
         auto&& A11 = cols(A, range{1, n});
         workinfo = larf_worksize<T>(LEFT_SIDE, FORWARD, COLUMNWISE_STORAGE,
                                     col(A, 0), tauv[0], A11);
-- 
2.43.0


From 7ccccd5f0ccae9b85c039e4021500ff4a4daf3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 028/101] fix: gghd3 honours wantq and wantz

---
 include/tlapack/lapack/gghd3.hpp | 44 +++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/include/tlapack/lapack/gghd3.hpp b/include/tlapack/lapack/gghd3.hpp
index a7cb39a..3ed664d 100644
--- a/include/tlapack/lapack/gghd3.hpp
+++ b/include/tlapack/lapack/gghd3.hpp
@@ -184,10 +184,12 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, C3, B2);
             }
 
-            auto Q2 = cols(Q, range(ihi - nblst, ihi));
-            auto D2 = cols(D, range(0, nblst));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
-            lacpy(GENERAL, D2, Q2);
+            if (wantq) {
+                auto Q2 = cols(Q, range(ihi - nblst, ihi));
+                auto D2 = cols(D, range(0, nblst));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
+                lacpy(GENERAL, D2, Q2);
+            }
         }
         for (idx_t ib = n2nb - 1; ib != (idx_t)-1; ib--) {
             auto Qt2 = slice(Qt, range(0, 2 * nnb), range(0, 2 * nnb));
@@ -218,11 +220,13 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, C3, B2);
             }
 
-            auto Q2 =
-                cols(Q, range(j + 1 + nnb * ib, j + 1 + nnb * ib + 2 * nnb));
-            auto D2 = cols(D, range(0, 2 * nnb));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
-            lacpy(GENERAL, D2, Q2);
+            if (wantq) {
+                auto Q2 = cols(
+                    Q, range(j + 1 + nnb * ib, j + 1 + nnb * ib + 2 * nnb));
+                auto D2 = cols(D, range(0, 2 * nnb));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
+                lacpy(GENERAL, D2, Q2);
+            }
         }
 
         //
@@ -254,10 +258,12 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, D2, B2);
             }
 
-            auto Z2 = cols(Z, range(ihi - nblst, ihi));
-            auto D2 = cols(D, range(0, nblst));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
-            lacpy(GENERAL, D2, Z2);
+            if (wantz) {
+                auto Z2 = cols(Z, range(ihi - nblst, ihi));
+                auto D2 = cols(D, range(0, nblst));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
+                lacpy(GENERAL, D2, Z2);
+            }
         }
         for (idx_t ib = n2nb - 1; ib != (idx_t)-1; ib--) {
             auto Qt2 = slice(Qt, range(0, 2 * nnb), range(0, 2 * nnb));
@@ -287,11 +293,13 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, D2, B2);
             }
 
-            auto Z2 =
-                cols(Z, range(j + 1 + nnb * ib, j + 1 + nnb * ib + 2 * nnb));
-            auto D2 = cols(D, range(0, 2 * nnb));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
-            lacpy(GENERAL, D2, Z2);
+            if (wantz) {
+                auto Z2 = cols(
+                    Z, range(j + 1 + nnb * ib, j + 1 + nnb * ib + 2 * nnb));
+                auto D2 = cols(D, range(0, 2 * nnb));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
+                lacpy(GENERAL, D2, Z2);
+            }
         }
     }
 
-- 
2.43.0


From 6bb18ead2737868410c51f6280c4f51a11f0083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 029/101] fix: rotg loses c^2+s^2=1 when r is subnormal

---
 include/tlapack/blas/rotg.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/blas/rotg.hpp b/include/tlapack/blas/rotg.hpp
index 12dc498..60cef95 100644
--- a/include/tlapack/blas/rotg.hpp
+++ b/include/tlapack/blas/rotg.hpp
@@ -65,10 +65,14 @@ void rotg(T& a, T& b, T& c, T& s)
     else {
         T scl = min(safmax, max(safmin, max(anorm, bnorm)));
         T sigma((anorm > bnorm) ? sgn(a) : sgn(b));
-        T r = sigma * scl * sqrt((a / scl) * (a / scl) + (b / scl) * (b / scl));
-        c = a / r;
-        s = b / r;
-        a = r;
+        // c and s come from the scaled operands: dividing by the final r would
+        // lose accuracy if r is subnormal
+        const T as = a / scl;
+        const T bs = b / scl;
+        const T d = sigma * sqrt(as * as + bs * bs);
+        c = as / d;
+        s = bs / d;
+        a = d * scl;
         if (anorm > bnorm)
             b = s;
         else if (c != zero)
-- 
2.43.0


From fc395e07445d6fc11c468242a5da12c3e625cff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 030/101] fix: ungbr on an empty matrix

---
 include/tlapack/lapack/ungbr.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/tlapack/lapack/ungbr.hpp b/include/tlapack/lapack/ungbr.hpp
index 642ee29..3f09edc 100644
--- a/include/tlapack/lapack/ungbr.hpp
+++ b/include/tlapack/lapack/ungbr.hpp
@@ -56,6 +56,9 @@ constexpr WorkInfo ungbr_q_worksize(const size_type<matrix_t> k,
     // constants
     const idx_t m = nrows(A);
 
+    // quick return
+    if (m == 0) return WorkInfo(0);
+
     if (m >= k) {
         return ungq_worksize<T>(FORWARD, COLUMNWISE_STORAGE, A, tau,
                                 UngqOpts{opts.nb});
@@ -100,6 +103,9 @@ constexpr WorkInfo ungbr_p_worksize(const size_type<matrix_t> k,
     // constants
     const idx_t n = ncols(A);
 
+    // quick return
+    if (n == 0) return WorkInfo(0);
+
     if (n <= k) {
         auto&& A2 = slice(A, range{0, n - 1}, range{0, n - 1});
         auto&& tau2 = slice(tau, range{0, n - 1});
@@ -139,6 +145,9 @@ int ungbr_q_work(const size_type<matrix_t> k,
     const real_t one(1);
     const idx_t m = nrows(A);
 
+    // quick return
+    if (m == 0) return 0;
+
     if (m >= k) {
         // If m >= k, assume m >= n >= k
         ungq_work(FORWARD, COLUMNWISE_STORAGE, A, tau, work, UngqOpts{opts.nb});
@@ -244,6 +253,9 @@ int ungbr_p_work(const size_type<matrix_t> k,
     const real_t one(1);
     const idx_t n = ncols(A);
 
+    // quick return
+    if (n == 0) return 0;
+
     //
     // Form P**H, determined by a call to gebrd to reduce a k-by-n
     // matrix
-- 
2.43.0


From 91cd285209d31813879377db5bbdba144c6d9b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 031/101] fix: steqr shift when the trailing diagonal entries
 are equal

sgn(0) is 0, so the Wilkinson shift divided by zero and every value became NaN.
---
 include/tlapack/lapack/steqr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/steqr.hpp b/include/tlapack/lapack/steqr.hpp
index 087f5bb..c898d02 100644
--- a/include/tlapack/lapack/steqr.hpp
+++ b/include/tlapack/lapack/steqr.hpp
@@ -177,7 +177,7 @@ int steqr(bool want_z, d_t& d, e_t& e, matrix_t& Z)
             real_t p = d[istop - 1];
             real_t g = (d[istop - 2] - p) / (two * e[istop - 2]);
             real_t r = lapy2(g, one);
-            g = d[istart] - p + e[istop - 2] / (real_t)(g + (sgn(g) * r));
+            g = d[istart] - p + e[istop - 2] / (real_t)(g + (g >= zero ? r : -r));
 
             real_t s = one;
             real_t c = one;
@@ -211,7 +211,7 @@ int steqr(bool want_z, d_t& d, e_t& e, matrix_t& Z)
             real_t p = d[istart];
             real_t g = (d[istart + 1] - p) / (two * e[istart]);
             real_t r = lapy2(g, one);
-            g = d[istop - 1] - p + e[istart] / (real_t)(g + (sgn(g) * r));
+            g = d[istop - 1] - p + e[istart] / (real_t)(g + (g >= zero ? r : -r));
 
             real_t s = one;
             real_t c = one;
-- 
2.43.0


From 133722d7441609c96b7dd9b588be479192de7016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 032/101] fix: steqr reports failure to converge

The loop ended before the iteration limit test could be reached, so an unconverged result was returned as success.
---
 include/tlapack/lapack/steqr.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/tlapack/lapack/steqr.hpp b/include/tlapack/lapack/steqr.hpp
index c898d02..b5f139e 100644
--- a/include/tlapack/lapack/steqr.hpp
+++ b/include/tlapack/lapack/steqr.hpp
@@ -112,17 +112,17 @@ int steqr(bool want_z, d_t& d, e_t& e, matrix_t& Z)
     bool forwarddirection = true;
 
     // Main loop
-    for (idx_t iter = 0; iter < itmax; iter++) {
-        if (iter == itmax) {
-            // The QR algorithm failed to converge, return with error.
-            return istop;
-        }
-
+    for (idx_t iter = 0; iter <= itmax; iter++) {
         if (istop <= 1) {
             // All eigenvalues have been found, exit and return 0.
             break;
         }
 
+        if (iter == itmax) {
+            // The QR algorithm failed to converge, return with error.
+            return istop;
+        }
+
         // Find active block
         for (idx_t i = istop - 1; i > istart; --i) {
             if (square(e[i - 1]) <=
-- 
2.43.0


From bbcc084ea4d00ce670441f29b5ef6052c3ef1238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 033/101] fix: laed4 continues after a successful three-pole
 step

The test on the return code of laed6 was inverted: on success laed4 returned without setting dlam.
---
 include/tlapack/lapack/laed4.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/laed4.hpp b/include/tlapack/lapack/laed4.hpp
index f2d340a..cf710c6 100644
--- a/include/tlapack/lapack/laed4.hpp
+++ b/include/tlapack/lapack/laed4.hpp
@@ -609,7 +609,7 @@ int laed4(
             std::vector<real_t> sub(delta.begin() + iim1, delta.end());
             info = laed6(niter, orgati, c, sub, zz, w, eta);
 
-            if (info == 0) {
+            if (info != 0) {
                 return info;
             }
         }
@@ -795,7 +795,7 @@ int laed4(
                 std::vector<real_t> sub(delta.begin() + iim1, delta.end());
                 info = laed6(niter, orgati, c, sub, zz, w, eta);
 
-                if (info == 0) {
+                if (info != 0) {
                     return info;
                 }
             }
-- 
2.43.0


From 196f139098ced6488e4e07d77300d25f15a05e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 034/101] fix: laed6 scales the right coefficient of the
 quadratic

---
 include/tlapack/lapack/laed6.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/laed6.hpp b/include/tlapack/lapack/laed6.hpp
index b840692..9131fcf 100644
--- a/include/tlapack/lapack/laed6.hpp
+++ b/include/tlapack/lapack/laed6.hpp
@@ -278,7 +278,7 @@ int laed6(idx_t kniter,
         temp = max(max(abs(a), abs(b)), abs(c));
         a = a / temp;
         b = b / temp;
-        c = b / temp;
+        c = c / temp;
 
         if (c == 0.0) {
             eta = b / a;
-- 
2.43.0


From f235527ec9910c72b8b623aa7bc3c9cacefd4ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 035/101] fix: lahqr_schur22 on blocks with equal diagonal or
 opposite off-diagonal entries

sgn(0) is 0: the block was divided by zero when a == d, and the rotation lost its sine when b == -c.
---
 include/tlapack/lapack/lahqr_schur22.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/lahqr_schur22.hpp b/include/tlapack/lapack/lahqr_schur22.hpp
index f2431bd..73355b5 100644
--- a/include/tlapack/lapack/lahqr_schur22.hpp
+++ b/include/tlapack/lapack/lahqr_schur22.hpp
@@ -92,7 +92,8 @@ void lahqr_schur22(T& a,
             // Real eigenvalues.
 
             // Compute a and d.
-            z = p + T(sgn(p)) * sqrt(scale) * sqrt(z);
+            z = p +
+                ((p >= zero) ? sqrt(scale) * sqrt(z) : -sqrt(scale) * sqrt(z));
             a = d + z;
             d = d - (bcmax / z) * bcmin;
             // Compute b and the rotation matrix
@@ -124,7 +125,7 @@ void lahqr_schur22(T& a,
             p = half * temp;
             T tau = lapy2(sigma, temp);
             cs = sqrt(half * (one + abs(sigma) / tau));
-            sn = -(p / (tau * cs)) * T(sgn(sigma));
+            sn = (sigma >= zero) ? -(p / (tau * cs)) : p / (tau * cs);
             //
             // Compute [aa bb] = [a b][cs -sn]
             //         [cc dd] = [c d][sn  cs]
-- 
2.43.0


From 4058d5b8666e16750fb24b5374a94bbe3a5dea2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 036/101] fix: lahqr reads past the active block when two
 diagonal entries vanish

---
 include/tlapack/lapack/lahqr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/lahqr.hpp b/include/tlapack/lapack/lahqr.hpp
index c65af46..f38f4e0 100644
--- a/include/tlapack/lapack/lahqr.hpp
+++ b/include/tlapack/lapack/lahqr.hpp
@@ -170,7 +170,7 @@ int lahqr(bool want_t,
                 if (i >= ilo + 2) {
                     tst = tst + abs(A(i - 1, i - 2));
                 }
-                if (i < ihi) {
+                if (i + 1 < ihi) {
                     tst = tst + abs(A(i + 1, i));
                 }
             }
@@ -505,7 +505,7 @@ int lahqr(bool want_t,
                 if (i >= ilo + 2) {
                     tst = tst + abs(A(i - 1, i - 2));
                 }
-                if (i < ihi) {
+                if (i + 1 < ihi) {
                     tst = tst + abs(A(i + 1, i));
                 }
             }
-- 
2.43.0


From 74943aebff97b585de798f18c36d523313a2cfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 037/101] fix: lahqr_schur22 leaves a lower triangular block
 when b cancels

---
 include/tlapack/lapack/lahqr_schur22.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/tlapack/lapack/lahqr_schur22.hpp b/include/tlapack/lapack/lahqr_schur22.hpp
index 73355b5..d5f5c77 100644
--- a/include/tlapack/lapack/lahqr_schur22.hpp
+++ b/include/tlapack/lapack/lahqr_schur22.hpp
@@ -166,6 +166,14 @@ void lahqr_schur22(T& a,
                         cs = temp;
                     }
                 }
+                else {
+                    // Swap rows and columns to reduce to upper triangular form
+                    b = -c;
+                    c = zero;
+                    temp = cs;
+                    cs = -sn;
+                    sn = temp;
+                }
             }
         }
     }
-- 
2.43.0


From f3a3b46952165e80b6019b8156f34933758ed95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 038/101] fix: aggressive early deflation loops forever sorting
 eigenvalues of equal magnitude

---
 .../tlapack/lapack/aggressive_early_deflation.hpp  | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/tlapack/lapack/aggressive_early_deflation.hpp b/include/tlapack/lapack/aggressive_early_deflation.hpp
index 1d342e4..d5f5d5a 100644
--- a/include/tlapack/lapack/aggressive_early_deflation.hpp
+++ b/include/tlapack/lapack/aggressive_early_deflation.hpp
@@ -328,9 +328,6 @@ void aggressive_early_deflation_work(bool want_t,
     while (!sorted) {
         sorted = true;
 
-        // Index of last eigenvalue that was swapped
-        idx_t ilst = 0;
-
         // Index of the first block
         idx_t i1 = ns;
 
@@ -341,10 +338,7 @@ void aggressive_early_deflation_work(bool want_t,
                 if (TW(i1 + 1, i1) != zero) n1 = 2;
 
             // Check if there is a next block
-            if (i1 + n1 == jw) {
-                ilst = ilst - n1;
-                break;
-            }
+            if (i1 + n1 >= sorting_window_size) break;
 
             // Index of the second block
             idx_t i2 = i1 + n1;
@@ -367,7 +361,7 @@ void aggressive_early_deflation_work(bool want_t,
                 ev2 = abs(TW(i2, i2)) +
                       sqrt(abs(TW(i2 + 1, i2))) * sqrt(abs(TW(i2, i2 + 1)));
 
-            if (ev1 > ev2) {
+            if (ev1 >= ev2) {
                 i1 = i2;
             }
             else {
@@ -377,10 +371,10 @@ void aggressive_early_deflation_work(bool want_t,
                     i1 = i1 + n2;
                 else
                     i1 = i2;
-                ilst = i1;
             }
         }
-        sorting_window_size = ilst;
+        // The last block that was reached does not need to be checked again
+        sorting_window_size = i1;
     }
 
     // Recalculate the eigenvalues
-- 
2.43.0


From 39f13096853040260dbda4717218b6cb36008ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 039/101] fix: multishift_qr takes shifts outside the active
 block and from uninitialized workspace

---
 include/tlapack/lapack/multishift_qr.hpp | 49 ++++++++++++++----------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/include/tlapack/lapack/multishift_qr.hpp b/include/tlapack/lapack/multishift_qr.hpp
index a55cb43..eda830b 100644
--- a/include/tlapack/lapack/multishift_qr.hpp
+++ b/include/tlapack/lapack/multishift_qr.hpp
@@ -15,6 +15,8 @@
 #include "tlapack/base/utils.hpp"
 #include "tlapack/lapack/FrancisOpts.hpp"
 #include "tlapack/lapack/aggressive_early_deflation.hpp"
+#include "tlapack/lapack/lacpy.hpp"
+#include "tlapack/lapack/lahqr.hpp"
 #include "tlapack/lapack/multishift_qr_sweep.hpp"
 
 namespace tlapack {
@@ -37,7 +39,7 @@ constexpr WorkInfo multishift_qr_worksize_sweep(bool want_t,
 
     const idx_t n = ncols(A);
     const idx_t nh = ihi - ilo;
-    const idx_t nsr = opts.nshift_recommender(n, nh);
+    const idx_t nsr = min(n, (idx_t)opts.nshift_recommender(n, nh));
     auto&& shifts = slice(w, range{0, nsr});
 
     return multishift_QR_sweep_worksize<T>(want_t, want_z, ilo, ihi, A, shifts,
@@ -141,8 +143,11 @@ int multishift_qr_work(bool want_t,
     // if n < nmin, the matrix will be passed to lahqr
     const idx_t nmin = opts.nmin;
 
-    // Recommended number of shifts
-    const idx_t nsr = opts.nshift_recommender(n, nh);
+    // Recommended number of shifts. It must be an even number, no greater than
+    // the active block and small enough for the space below the subdiagonal.
+    idx_t nsr = opts.nshift_recommender(n, nh);
+    if (n >= nmin) nsr = min(nsr, min((n - 3) / 6, nh));
+    nsr = max<idx_t>(2, nsr - nsr % 2);
 
     // Recommended deflation window size
     const idx_t nwr = opts.deflation_window_recommender(n, nh);
@@ -257,12 +262,13 @@ int multishift_qr_work(bool want_t,
         }
 
         k_defl = k_defl + 1;
-        idx_t ns = min(nh - 1, min(ls, nsr));
+        idx_t ns = min(nsr, max<idx_t>(2, istop - istart - 1));
+        ns = ns - ns % 2;
 
         idx_t i_shifts = istop - ls;
 
         if (k_defl % non_convergence_limit_shift == 0) {
-            ns = nsr;
+            i_shifts = istop - ns;
             for (idx_t i = i_shifts; i < istop - 1; i = i + 2) {
                 real_t ss = abs1(A(i, i - 1));
                 if (i > 1) ss += abs1(A(i - 1, i - 2));
@@ -274,17 +280,21 @@ int multishift_qr_work(bool want_t,
             }
         }
         else {
-            if (ls < nsr / 2) {
-                // Got nsr/2 or fewer shifts? Then use multi/double shift qr to
-                // get more
-                auto temp = slice(A, range{n - nsr, n}, range{0, nsr});
-                auto shifts = slice(w, range{istop - nsr, istop});
-                auto Z_slice = slice(Z, range{0, nsr}, range{0, nsr});
-                int ierr = lahqr(false, false, 0, nsr, temp, shifts, Z_slice);
-
-                ns = nsr - ierr;
-
-                if (ns < 2) {
+            if (ls <= ns / 2) {
+                // Got ns/2 or fewer shifts? Then use double shift qr on the
+                // trailing submatrix of the active block to get more
+                auto A_trail =
+                    slice(A, range{istop - ns, istop}, range{istop - ns, istop});
+                auto temp = slice(A, range{n - ns, n}, range{0, ns});
+                auto shifts = slice(w, range{istop - ns, istop});
+                auto Z_slice = slice(Z, range{0, 0}, range{0, 0});
+                lacpy(GENERAL, A_trail, temp);
+                idx_t ierr =
+                    lahqr(false, false, 0, ns, temp, shifts, Z_slice);
+
+                i_shifts = istop - ns + ierr;
+
+                if (istop - i_shifts < 2) {
                     // In case of a rare QR failure, use eigenvalues
                     // of the trailing 2x2 submatrix
                     TA aa = A(istop - 2, istop - 2);
@@ -292,10 +302,8 @@ int multishift_qr_work(bool want_t,
                     TA cc = A(istop - 1, istop - 2);
                     TA dd = A(istop - 1, istop - 1);
                     lahqr_eig22(aa, bb, cc, dd, w[istop - 2], w[istop - 1]);
-                    ns = 2;
+                    i_shifts = istop - 2;
                 }
-
-                i_shifts = istop - ns;
             }
 
             // Sort the shifts (helps a little)
@@ -331,7 +339,8 @@ int multishift_qr_work(bool want_t,
 
             // Since we shuffled the shifts, we will only drop
             // Real shifts
-            if (ns % 2 == 1) ns = ns - 1;
+            ns = min(ns, istop - i_shifts);
+            ns = ns - ns % 2;
             i_shifts = istop - ns;
         }
 
-- 
2.43.0


From 04b52a78654cdd4864cd57d50168357a46c8fb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 040/101] fix: complex lahqr does not deflate a block with two
 equal diagonal entries

---
 include/tlapack/lapack/lahqr.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tlapack/lapack/lahqr.hpp b/include/tlapack/lapack/lahqr.hpp
index f38f4e0..b9bbcef 100644
--- a/include/tlapack/lapack/lahqr.hpp
+++ b/include/tlapack/lapack/lahqr.hpp
@@ -527,6 +527,10 @@ int lahqr(bool want_t,
                 real_t ba = (aij < aji) ? aij : aji;  // Propagates NaNs in aji
                 real_t aa = max(abs1(A(i, i)), abs1(A(i, i) - A(i - 1, i - 1)));
                 real_t bb = min(abs1(A(i, i)), abs1(A(i, i) - A(i - 1, i - 1)));
+                // The difference of the diagonal entries is only known up to
+                // rounding errors. Without this lower bound, a block with two
+                // equal diagonal entries may never be deflated.
+                bb = max(bb, eps * aa);
                 real_t s = aa + ab;
                 if (ba * (ab / s) <= max(small_num, eps * (bb * (aa / s)))) {
                     // A(i,i-1) is negligible, take i as new istart.
-- 
2.43.0


From 3a147c50be5769dd0d016e0ec5c4876dca34384c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 041/101] fix: inv_house3 does not reduce the column when the
 trailing 2x2 block is singular

---
 include/tlapack/lapack/inv_house3.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/inv_house3.hpp b/include/tlapack/lapack/inv_house3.hpp
index 304cea9..83d373c 100644
--- a/include/tlapack/lapack/inv_house3.hpp
+++ b/include/tlapack/lapack/inv_house3.hpp
@@ -98,8 +98,9 @@ void inv_house3(const matrix_t& A, vector_t& v, type_t<vector_t>& tau)
     real_t scale = (real_t)1;
     if (abs1(u22) < safemin) {
         v[0] = (T)0;
-        v[1] = (T)1;
-        v[2] = -u12 / u11;
+        v[1] = -u12 / u11;
+        v[2] = (T)1;
+        if (colswapped) std::swap(v[1], v[2]);
         larfg(FORWARD, COLUMNWISE_STORAGE, v, tau);
         return;
     }
-- 
2.43.0


From 85a4ccca768bc97dc86dbbfff63122fc546f8370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 042/101] fix: lahqz_eig22 divides by zero for complex pencils
 with a double eigenvalue

---
 include/tlapack/lapack/lahqz_eig22.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/lahqz_eig22.hpp b/include/tlapack/lapack/lahqz_eig22.hpp
index 311ce78..da429e5 100644
--- a/include/tlapack/lapack/lahqz_eig22.hpp
+++ b/include/tlapack/lapack/lahqz_eig22.hpp
@@ -216,7 +216,7 @@ void lahqz_eig22(const A_t& A,
         else {
             mu_big = pp - root;
         }
-        TA mu_small = -qq / mu_big;
+        TA mu_small = (mu_big == TA(0)) ? TA(0) : -qq / mu_big;
         alpha1 = shift + mu_big;
         alpha2 = shift + mu_small;
     }
-- 
2.43.0


From 74378c227ecdf80bc208f602aaa21f29a1243f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 043/101] fix: lahqz_shiftcolumn divides by scale factors that
 were not applied

---
 include/tlapack/lapack/lahqz_shiftcolumn.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tlapack/lapack/lahqz_shiftcolumn.hpp b/include/tlapack/lapack/lahqz_shiftcolumn.hpp
index c150c4d..af0a61e 100644
--- a/include/tlapack/lapack/lahqz_shiftcolumn.hpp
+++ b/include/tlapack/lapack/lahqz_shiftcolumn.hpp
@@ -92,6 +92,8 @@ int lahqz_shiftcolumn(const matrix_t& A,
             w1 = w1 / scale1;
             w2 = w2 / scale1;
         }
+        else
+            scale1 = (real_t)1;
         // Solve linear system
         w2 = w2 / B(1, 1);
         w1 = (w1 - B(0, 1) * w2) / B(0, 0);
@@ -100,6 +102,8 @@ int lahqz_shiftcolumn(const matrix_t& A,
             w1 = w1 / scale2;
             w2 = w2 / scale2;
         }
+        else
+            scale2 = (real_t)1;
         // Apply second shift
         v[0] = beta2 * (A(0, 0) * w1 + A(0, 1) * w2) -
                real(s2) * (B(0, 0) * w1 + B(0, 1) * w2);
-- 
2.43.0


From 0c87cc6af144c840dd832dbfb247f8daf8cb9347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 044/101] fix: lahqz_eig22 loses the smaller eigenvalue of
 complex pencils to cancellation

---
 include/tlapack/lapack/lahqz_eig22.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/tlapack/lapack/lahqz_eig22.hpp b/include/tlapack/lapack/lahqz_eig22.hpp
index da429e5..dd0249f 100644
--- a/include/tlapack/lapack/lahqz_eig22.hpp
+++ b/include/tlapack/lapack/lahqz_eig22.hpp
@@ -219,6 +219,15 @@ void lahqz_eig22(const A_t& A,
         TA mu_small = (mu_big == TA(0)) ? TA(0) : -qq / mu_big;
         alpha1 = shift + mu_big;
         alpha2 = shift + mu_small;
+        //
+        // Recompute the smaller eigenvalue from the determinant if it may
+        // suffer from cancellation
+        //
+        const TA wdet = (a00 * a11 - a01 * a10) * (binv00 * binv11);
+        if (half * abs1(alpha1) > max<real_t>(abs1(alpha2), safmin))
+            alpha2 = wdet / alpha1;
+        else if (half * abs1(alpha2) > max<real_t>(abs1(alpha1), safmin))
+            alpha1 = wdet / alpha2;
     }
     else {
         //
-- 
2.43.0


From 262ad08b99d651bd42f16d962ca50cb7218d2076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:40 +0000
Subject: [PATCH 045/101] fix: lahqz_eig22 overflows in beta for singular B and
 tiny A

---
 include/tlapack/lapack/lahqz_eig22.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/tlapack/lapack/lahqz_eig22.hpp b/include/tlapack/lapack/lahqz_eig22.hpp
index dd0249f..394ea16 100644
--- a/include/tlapack/lapack/lahqz_eig22.hpp
+++ b/include/tlapack/lapack/lahqz_eig22.hpp
@@ -107,10 +107,10 @@ void lahqz_eig22(const A_t& A,
             }
         }
 
-        alpha1 = a00;
-        alpha2 = a11;
+        alpha1 = anorm * a00;
+        alpha2 = anorm * a11;
         beta1 = zero;
-        beta2 = real(b11) * ascale;
+        beta2 = real(b11);
         return;
     }
 
@@ -146,9 +146,9 @@ void lahqz_eig22(const A_t& A,
             }
         }
 
-        alpha1 = a00;
-        alpha2 = a11;
-        beta1 = real(b00) * ascale;
+        alpha1 = anorm * a00;
+        alpha2 = anorm * a11;
+        beta1 = real(b00);
         beta2 = zero;
         return;
     }
-- 
2.43.0


From 89c37ac77a03818a3a57125599596e9e4a4a90c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:32 +0000
Subject: [PATCH 046/101] fix: generalized_schur_swap updates Q and Z when they
 are not wanted

---
 .../tlapack/lapack/generalized_schur_swap.hpp | 48 +++++++++++--------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/include/tlapack/lapack/generalized_schur_swap.hpp b/include/tlapack/lapack/generalized_schur_swap.hpp
index 83e1b76..6f8850c 100644
--- a/include/tlapack/lapack/generalized_schur_swap.hpp
+++ b/include/tlapack/lapack/generalized_schur_swap.hpp
@@ -948,7 +948,7 @@ int generalized_schur_swap(bool want_q,
                  work_slice);
             lacpy(GENERAL, work_slice, B_slice);
         }
-        {
+        if (want_q) {
             auto Q_slice = slice(Q, range(0, n), range(j0, j3 + 1));
             auto work_slice = slice(workr, range(0, n), range(0, 4));
             gemm(NO_TRANS, NO_TRANS, (T)1, Q_slice, QQ, StrongZero(T(0)),
@@ -974,7 +974,7 @@ int generalized_schur_swap(bool want_q,
                  work_slice);
             lacpy(GENERAL, work_slice, B_slice);
         }
-        {
+        if (want_z) {
             auto Z_slice = slice(Z, range(0, n), range(j0, j3 + 1));
             auto work_slice = slice(workr, range(0, n), range(0, 4));
             gemm(NO_TRANS, NO_TRANS, (T)1, Z_slice, ZZ, StrongZero(T(0)),
@@ -1029,9 +1029,11 @@ int generalized_schur_swap(bool want_q,
             auto b1 = slice(B, j0, range(j2, n));
             auto b2 = slice(B, j1, range(j2, n));
             rot(b1, b2, cl, sl);
-            auto q0 = col(Q, j0);
-            auto q1 = col(Q, j1);
-            rot(q0, q1, cl, sl);
+            if (want_q) {
+                auto q0 = col(Q, j0);
+                auto q1 = col(Q, j1);
+                rot(q0, q1, cl, sl);
+            }
         }
         // Apply right rotation and scaling
         {
@@ -1041,20 +1043,22 @@ int generalized_schur_swap(bool want_q,
             auto b1 = slice(B, range(0, j0), j0);
             auto b2 = slice(B, range(0, j0), j1);
             rot(b1, b2, cr, sr);
-            auto z0 = col(Z, j0);
-            auto z1 = col(Z, j1);
-            rot(z0, z1, cr, sr);
-
             if (scal0 != (T)1) {
                 scal(scal0, a1);
                 scal(scal0, b1);
-                scal(scal0, z0);
             }
 
             if (scal1 != (T)1) {
                 scal(scal1, a2);
                 scal(scal1, b2);
-                scal(scal1, z1);
+            }
+
+            if (want_z) {
+                auto z0 = col(Z, j0);
+                auto z1 = col(Z, j1);
+                rot(z0, z1, cr, sr);
+                if (scal0 != (T)1) scal(scal0, z0);
+                if (scal1 != (T)1) scal(scal1, z1);
             }
         }
     }
@@ -1091,9 +1095,11 @@ int generalized_schur_swap(bool want_q,
             auto b1 = slice(B, j0 + n2, range(j2 + n2, n));
             auto b2 = slice(B, j1 + n2, range(j2 + n2, n));
             rot(b1, b2, cl, sl);
-            auto q0 = col(Q, j0 + n2);
-            auto q1 = col(Q, j1 + n2);
-            rot(q0, q1, cl, sl);
+            if (want_q) {
+                auto q0 = col(Q, j0 + n2);
+                auto q1 = col(Q, j1 + n2);
+                rot(q0, q1, cl, sl);
+            }
         }
         // Apply right rotation
         {
@@ -1103,20 +1109,22 @@ int generalized_schur_swap(bool want_q,
             auto b1 = slice(B, range(0, j0 + n2), j0 + n2);
             auto b2 = slice(B, range(0, j0 + n2), j1 + n2);
             rot(b1, b2, cr, sr);
-            auto z0 = col(Z, j0 + n2);
-            auto z1 = col(Z, j1 + n2);
-            rot(z0, z1, cr, sr);
-
             if (scal0 != (T)1) {
                 scal(scal0, a1);
                 scal(scal0, b1);
-                scal(scal0, z0);
             }
 
             if (scal1 != (T)1) {
                 scal(scal1, a2);
                 scal(scal1, b2);
-                scal(scal1, z1);
+            }
+
+            if (want_z) {
+                auto z0 = col(Z, j0 + n2);
+                auto z1 = col(Z, j1 + n2);
+                rot(z0, z1, cr, sr);
+                if (scal0 != (T)1) scal(scal0, z0);
+                if (scal1 != (T)1) scal(scal1, z1);
             }
         }
     }
-- 
2.43.0


From 228ef49f35b777f96a30b19d609e561b102c0ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:21 +0000
Subject: [PATCH 047/101] fix: lahqz and multishift_qz read past the active
 block in the deflation test

---
 include/tlapack/lapack/lahqz.hpp         | 2 +-
 include/tlapack/lapack/multishift_qz.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/lahqz.hpp b/include/tlapack/lapack/lahqz.hpp
index 3176bb8..7a6854f 100644
--- a/include/tlapack/lapack/lahqz.hpp
+++ b/include/tlapack/lapack/lahqz.hpp
@@ -182,7 +182,7 @@ int lahqz(bool want_s,
                 if (i >= ilo + 2) {
                     tst = tst + abs(A(i - 1, i - 2));
                 }
-                if (i < ihi) {
+                if (i + 1 < ihi) {
                     tst = tst + abs(A(i + 1, i));
                 }
             }
diff --git a/include/tlapack/lapack/multishift_qz.hpp b/include/tlapack/lapack/multishift_qz.hpp
index 15c5d91..88d4ad7 100644
--- a/include/tlapack/lapack/multishift_qz.hpp
+++ b/include/tlapack/lapack/multishift_qz.hpp
@@ -204,7 +204,7 @@ int multishift_qz(bool want_s,
                 if (i >= ilo + 2) {
                     tst = tst + abs(A(i - 1, i - 2));
                 }
-                if (i < ihi) {
+                if (i + 1 < ihi) {
                     tst = tst + abs(A(i + 1, i));
                 }
             }
-- 
2.43.0


From 74bfb4563c8f489c2d58ccfd7ec31c7d74783e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:21 +0000
Subject: [PATCH 048/101] fix: complex lahqz and multishift_qz zero a diagonal
 entry of B that is already real and positive

---
 include/tlapack/lapack/lahqz.hpp         | 24 +++++++++++++-----------
 include/tlapack/lapack/multishift_qz.hpp | 24 +++++++++++++-----------
 2 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/include/tlapack/lapack/lahqz.hpp b/include/tlapack/lapack/lahqz.hpp
index 7a6854f..af512a9 100644
--- a/include/tlapack/lapack/lahqz.hpp
+++ b/include/tlapack/lapack/lahqz.hpp
@@ -314,19 +314,21 @@ int lahqz(bool want_s,
             }
             else {
                 real_t absB = abs(B(istart, istart));
-                if (absB > small_num and (imag(B(istart, istart)) != zero or
-                                          real(B(istart, istart)) < zero)) {
-                    TA scal = conj(B(istart, istart) / absB);
-                    for (idx_t i = istart_m; i <= istart; ++i) {
-                        B(i, istart) = scal * B(i, istart);
-                        A(i, istart) = scal * A(i, istart);
-                    }
-                    if (want_z) {
-                        for (idx_t i = 0; i < n; ++i) {
-                            Z(i, istart) = scal * Z(i, istart);
+                if (absB > small_num) {
+                    if (imag(B(istart, istart)) != zero or
+                        real(B(istart, istart)) < zero) {
+                        TA scal = conj(B(istart, istart) / absB);
+                        for (idx_t i = istart_m; i <= istart; ++i) {
+                            B(i, istart) = scal * B(i, istart);
+                            A(i, istart) = scal * A(i, istart);
+                        }
+                        if (want_z) {
+                            for (idx_t i = 0; i < n; ++i) {
+                                Z(i, istart) = scal * Z(i, istart);
+                            }
                         }
+                        B(istart, istart) = absB;
                     }
-                    B(istart, istart) = absB;
                 }
                 else {
                     B(istart, istart) = zero;
diff --git a/include/tlapack/lapack/multishift_qz.hpp b/include/tlapack/lapack/multishift_qz.hpp
index 88d4ad7..068a955 100644
--- a/include/tlapack/lapack/multishift_qz.hpp
+++ b/include/tlapack/lapack/multishift_qz.hpp
@@ -336,19 +336,21 @@ int multishift_qz(bool want_s,
             }
             else {
                 real_t absB = abs(B(istart, istart));
-                if (absB > small_num and (imag(B(istart, istart)) != zero or
-                                          real(B(istart, istart)) < zero)) {
-                    TA scal = conj(B(istart, istart) / absB);
-                    for (idx_t i = istart_m; i <= istart; ++i) {
-                        B(i, istart) = scal * B(i, istart);
-                        A(i, istart) = scal * A(i, istart);
-                    }
-                    if (want_z) {
-                        for (idx_t i = 0; i < n; ++i) {
-                            Z(i, istart) = scal * Z(i, istart);
+                if (absB > small_num) {
+                    if (imag(B(istart, istart)) != zero or
+                        real(B(istart, istart)) < zero) {
+                        TA scal = conj(B(istart, istart) / absB);
+                        for (idx_t i = istart_m; i <= istart; ++i) {
+                            B(i, istart) = scal * B(i, istart);
+                            A(i, istart) = scal * A(i, istart);
+                        }
+                        if (want_z) {
+                            for (idx_t i = 0; i < n; ++i) {
+                                Z(i, istart) = scal * Z(i, istart);
+                            }
                         }
+                        B(istart, istart) = absB;
                     }
-                    B(istart, istart) = absB;
                 }
                 else {
                     B(istart, istart) = zero;
-- 
2.43.0


From dbd5eb8fe5f2bcc428536ca1c42c2d3c288026ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:18 +0000
Subject: [PATCH 049/101] fix: multishift_QZ_sweep skips a rotation of its
 local Z when Z is not wanted

---
 include/tlapack/lapack/multishift_qz_sweep.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/tlapack/lapack/multishift_qz_sweep.hpp b/include/tlapack/lapack/multishift_qz_sweep.hpp
index 3fceb60..86bcd33 100644
--- a/include/tlapack/lapack/multishift_qz_sweep.hpp
+++ b/include/tlapack/lapack/multishift_qz_sweep.hpp
@@ -654,11 +654,10 @@ void multishift_QZ_sweep(bool want_t,
                         auto a1 = col(A2, i);
                         auto a2 = col(A2, i + 1);
                         rot(a1, a2, c2, conj(s2));
-                        if (want_z) {
-                            auto z1 = col(Zc2, i);
-                            auto z2 = col(Zc2, i + 1);
-                            rot(z1, z2, c2, conj(s2));
-                        }
+                        // Zc2 is also used to update the rest of A and B
+                        auto z1 = col(Zc2, i);
+                        auto z2 = col(Zc2, i + 1);
+                        rot(z1, z2, c2, conj(s2));
                     }
                 }
 
-- 
2.43.0


From 42b2907daa40950823d76529791cceb960c36262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:18 +0000
Subject: [PATCH 050/101] fix: multishift_qz exceptional shifts ignore the
 scale of B

---
 include/tlapack/lapack/multishift_qz.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/multishift_qz.hpp b/include/tlapack/lapack/multishift_qz.hpp
index 068a955..5fb209b 100644
--- a/include/tlapack/lapack/multishift_qz.hpp
+++ b/include/tlapack/lapack/multishift_qz.hpp
@@ -492,8 +492,8 @@ int multishift_qz(bool want_s,
                 TA cc = dat2 * ss;
                 TA dd = aa;
                 lahqr_eig22(aa, bb, cc, dd, alpha[i], alpha[i + 1]);
-                beta[i] = (TA)1;
-                beta[i + 1] = (TA)1;
+                beta[i] = max(abs1(B(i, i)), abs1(B(i + 1, i + 1)));
+                beta[i + 1] = beta[i];
             }
         }
         else {
-- 
2.43.0


From fe8b422397cce01d20074dc7d35a2db4d4164a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:18 +0000
Subject: [PATCH 051/101] fix: multishift_qz takes shifts outside the active
 block

---
 include/tlapack/lapack/multishift_qz.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/tlapack/lapack/multishift_qz.hpp b/include/tlapack/lapack/multishift_qz.hpp
index 5fb209b..ebe9db9 100644
--- a/include/tlapack/lapack/multishift_qz.hpp
+++ b/include/tlapack/lapack/multishift_qz.hpp
@@ -94,8 +94,11 @@ int multishift_qz(bool want_s,
     // if n < nmin, the matrix will be passed to lahqr
     const idx_t nmin = opts.nmin;
 
-    // Recommended number of shifts
-    const idx_t nsr = opts.nshift_recommender(n, nh);
+    // Recommended number of shifts. It must be an even number, no greater than
+    // the active block.
+    idx_t nsr = opts.nshift_recommender(n, nh);
+    nsr = min(nsr, nh);
+    nsr = max<idx_t>(2, nsr - nsr % 2);
 
     // Recommended deflation window size
     const idx_t nwr = opts.deflation_window_recommender(n, nh);
@@ -476,14 +479,16 @@ int multishift_qz(bool want_s,
         }
 
         k_defl = k_defl + 1;
-        idx_t ns = min(nh - 1, min(ls, nsr));
+        idx_t ns = min(istop - istart - 1, min(ls, nsr));
 
         idx_t i_shifts = istop - ls;
 
-        if (k_defl % non_convergence_limit_shift == 0) {
+        if (k_defl % non_convergence_limit_shift == 0 or ns < 2) {
             // This exceptional shift closely resembles the QR exceptional shift
             // This is nice for easy maintenance, but is not guaranteed to work.
-            ns = nsr;
+            ns = min(nsr, max<idx_t>(2, istop - istart - 1));
+            ns = ns - ns % 2;
+            i_shifts = istop - ns;
             for (idx_t i = i_shifts; i < istop - 1; i = i + 2) {
                 real_t ss = abs1(A(i, i - 1));
                 if (i > 1) ss += abs1(A(i - 1, i - 2));
-- 
2.43.0


From e9352423b9a83ba8e39daa2b374b17edec6b5010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:25 +0000
Subject: [PATCH 052/101] fix: lahqz and multishift_qz split off 2x2 blocks
 that became triangular as complex pairs

---
 include/tlapack/lapack/lahqz.hpp         | 4 ++++
 include/tlapack/lapack/multishift_qz.hpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/tlapack/lapack/lahqz.hpp b/include/tlapack/lapack/lahqz.hpp
index af512a9..8195543 100644
--- a/include/tlapack/lapack/lahqz.hpp
+++ b/include/tlapack/lapack/lahqz.hpp
@@ -401,6 +401,10 @@ int lahqz(bool want_s,
                         rot(z1, z2, csr, snr);
                     }
 
+                    // If the standardization made the block triangular, then
+                    // its eigenvalues will be deflated one at a time
+                    if (A22(1, 0) == zero) continue;
+
                     k_defl = 0;
                     istop = istart;
                     istart = ilo;
diff --git a/include/tlapack/lapack/multishift_qz.hpp b/include/tlapack/lapack/multishift_qz.hpp
index ebe9db9..7927cbe 100644
--- a/include/tlapack/lapack/multishift_qz.hpp
+++ b/include/tlapack/lapack/multishift_qz.hpp
@@ -426,6 +426,10 @@ int multishift_qz(bool want_s,
                         rot(z1, z2, csr, snr);
                     }
 
+                    // If the standardization made the block triangular, then
+                    // its eigenvalues will be deflated one at a time
+                    if (A22(1, 0) == zero) continue;
+
                     k_defl = 0;
                     istop = istart;
                     istart = ilo;
-- 
2.43.0


From 64ad374c3303f7e4e74b528f7270dc3fd05f7785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:25 +0000
Subject: [PATCH 053/101] fix: lahqz and multishift_qz miss infinite
 eigenvalues that appear while deflating others

---
 include/tlapack/lapack/lahqz.hpp         | 3 +++
 include/tlapack/lapack/multishift_qz.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/tlapack/lapack/lahqz.hpp b/include/tlapack/lapack/lahqz.hpp
index 8195543..f2d7333 100644
--- a/include/tlapack/lapack/lahqz.hpp
+++ b/include/tlapack/lapack/lahqz.hpp
@@ -286,6 +286,9 @@ int lahqz(bool want_s,
                 alpha[istart] = A(istart, istart);
                 beta[istart] = zero;
                 istart = istart + 1;
+                // The rotations may have introduced other zeros on the
+                // diagonal of B, so check the whole remaining block again
+                i = istart - 1;
             }
         }
 
diff --git a/include/tlapack/lapack/multishift_qz.hpp b/include/tlapack/lapack/multishift_qz.hpp
index 7927cbe..9ebf5f1 100644
--- a/include/tlapack/lapack/multishift_qz.hpp
+++ b/include/tlapack/lapack/multishift_qz.hpp
@@ -311,6 +311,9 @@ int multishift_qz(bool want_s,
                 alpha[istart] = A(istart, istart);
                 beta[istart] = zero;
                 istart = istart + 1;
+                // The rotations may have introduced other zeros on the
+                // diagonal of B, so check the whole remaining block again
+                i = istart - 1;
             }
         }
 
-- 
2.43.0


From 61ba6c13a7974380742091598d5649dc95de744d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:30 +0000
Subject: [PATCH 054/101] fix: lahqz does not converge for some pencils with
 multiple eigenvalues

---
 include/tlapack/lapack/lahqz.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/lahqz.hpp b/include/tlapack/lapack/lahqz.hpp
index f2d7333..2612130 100644
--- a/include/tlapack/lapack/lahqz.hpp
+++ b/include/tlapack/lapack/lahqz.hpp
@@ -198,6 +198,9 @@ int lahqz(bool want_s,
                 // eps*|A(i,i)|*|A(i-1,i-1)*B(i,i)-A(i,i)*B(i-1,i-1)|.
                 // The multiplications might overflow so we do some scaling
                 // first.
+                // Rounding errors can prevent this test from passing if
+                // (A,B) has (nearly) multiple eigenvalues, so it is dropped
+                // if there have been no deflations in many iterations.
                 //
                 const real_t tst1 =
                     abs1(B(i, i) * A(i - 1, i) - A(i, i) * B(i - 1, i));
@@ -208,7 +211,8 @@ int lahqz(bool want_s,
                 real_t aa = max(abs1(A(i, i)), tst2);
                 real_t bb = min(abs1(A(i, i)), tst2);
                 real_t s = aa + ab;
-                if (ba * (ab / s) <= max(small_num, eps * (bb * (aa / s)))) {
+                if (k_defl > non_convergence_limit or
+                    ba * (ab / s) <= max(small_num, eps * (bb * (aa / s)))) {
                     // A(i,i-1) is negligible, take i as new istart.
                     A(i, i - 1) = zero;
                     istart = i;
-- 
2.43.0


From 5dbf3873a4d0b4e034bd134acaaa61a9a482f6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:30 +0000
Subject: [PATCH 055/101] fix: lahqz exceptional shift vanishes if the diagonal
 of A is zero

---
 include/tlapack/lapack/lahqz.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/lahqz.hpp b/include/tlapack/lapack/lahqz.hpp
index 2612130..69b21a3 100644
--- a/include/tlapack/lapack/lahqz.hpp
+++ b/include/tlapack/lapack/lahqz.hpp
@@ -429,10 +429,10 @@ int lahqz(bool want_s,
         TA beta2;
         if (k_defl % non_convergence_limit == 0) {
             // Exceptional shift
-            if (k_defl % 2 * non_convergence_limit == 0 or istop < 2)
+            if (k_defl % (2 * non_convergence_limit) == 0)
                 eshift += A(istop - 1, istop - 1) / B(istop - 1, istop - 1);
             else
-                eshift += A(istop - 2, istop - 2) / B(istop - 2, istop - 2);
+                eshift += A(istop - 1, istop - 2) / B(istop - 2, istop - 2);
 
             shift1 = eshift;
             shift2 = eshift;
-- 
2.43.0


From 4be5203a9e68b1d028c2b4fa16d14347d61934ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:38 +0000
Subject: [PATCH 056/101] fix: trevc and trevc3 divide by zero for repeated
 eigenvalues

---
 include/tlapack/lapack/trevc3_backsolve.hpp   | 200 ++++++++++--------
 .../tlapack/lapack/trevc3_forwardsolve.hpp    | 162 +++++++-------
 include/tlapack/lapack/trevc_backsolve.hpp    |  10 +-
 include/tlapack/lapack/trevc_forwardsolve.hpp |  10 +-
 include/tlapack/lapack/trevc_protect.hpp      |  47 +++-
 5 files changed, 259 insertions(+), 170 deletions(-)

diff --git a/include/tlapack/lapack/trevc3_backsolve.hpp b/include/tlapack/lapack/trevc3_backsolve.hpp
index ce5b1c9..1a0f585 100644
--- a/include/tlapack/lapack/trevc3_backsolve.hpp
+++ b/include/tlapack/lapack/trevc3_backsolve.hpp
@@ -15,6 +15,7 @@
 #include "tlapack/base/utils.hpp"
 #include "tlapack/blas/asum.hpp"
 #include "tlapack/blas/gemm.hpp"
+#include "tlapack/blas/scal.hpp"
 #include "tlapack/lapack/laset.hpp"
 #include "tlapack/lapack/trevc_backsolve.hpp"
 
@@ -46,6 +47,9 @@ void trevc3_backsolve(const matrix_T_t& T,
 
     tlapack_check(ncols(T) == n);
 
+    const real_t sf_max = safe_max<real_t>();
+    const real_t sf_min = safe_min<real_t>();
+
     idx_t nk = ke - ks;
     auto [shifts, work2] = reshape(work, nk);
 
@@ -146,99 +150,97 @@ void trevc3_backsolve(const matrix_T_t& T,
             }
 
             if (pair) {
-                TT wr = shifts[k];
-                TT wi = shifts[k + 1];
-
-                for (idx_t ii = 0; ii < nb;) {
-                    idx_t i = nb - 1 - ii;
-                    bool is_2x2_block = false;
-                    auto v1_r = col(X_ii, k);
-                    auto v1_i = col(X_ii, k + 1);
-                    if (i > 0) {
-                        if (T_ii(i, i - 1) != TT(0)) {
-                            is_2x2_block = true;
-                        }
-                    }
+                if constexpr (is_real<TT>) {
+                    TT wr = shifts[k];
+                    TT wi = shifts[k + 1];
+                    const real_t smin = trevc_smin(abs(wr) + wi);
+                    const real_t spert = trevc_perturb(abs(wr) + wi, colN);
 
-                    if (is_2x2_block) {
-                        // 2x2 block
-
-                        // Solve the complex 2x2 system:
-                        // [T11(i-1,i-1)- (wr + i*wi)   T11(i-1,i)            ]
-                        // [T11(i,  i-1)               T11(i,  i)- (wr + i*wi)]
-                        // *
-                        // x
-                        // =
-                        // [v1_r[i-1] + i*v1_i[i-1]]
-                        // [v1_r[i]   + i*v1_i[i]  ]
-                        // Using real arithmetic only with Cramer's rule
-
-                        TT a11r = T_ii(i - 1, i - 1) - wr;
-                        TT a11i = -wi;
-                        TT a12 = T_ii(i - 1, i);
-                        TT a21 = T_ii(i, i - 1);
-                        TT a22r = T_ii(i, i) - wr;
-                        TT a22i = -wi;
-
-                        TT b1r = v1_r[i - 1];
-                        TT b1i = v1_i[i - 1];
-                        TT b2r = v1_r[i];
-                        TT b2i = v1_i[i];
-
-                        TT detr = a11r * a22r - a11i * a22i - a12 * a21;
-                        TT deti = a11r * a22i + a11i * a22r;
-
-                        TT denom = detr * detr + deti * deti;
-
-                        TT c1r = a22r * b1r - a22i * b1i - a12 * b2r;
-                        TT c1i = a22r * b1i + a22i * b1r - a12 * b2i;
-                        TT x1r = (c1r * detr + c1i * deti) / denom;
-                        TT x1i = (c1i * detr - c1r * deti) / denom;
-
-                        TT c2r = (a11r * b2r - a11i * b2i) - (a21 * b1r);
-                        TT c2i = (a11r * b2i + a11i * b2r) - (a21 * b1i);
-                        TT x2r = (c2r * detr + c2i * deti) / denom;
-                        TT x2i = (c2i * detr - c2r * deti) / denom;
-
-                        v1_r[i - 1] = x1r;
-                        v1_i[i - 1] = x1i;
-                        v1_r[i] = x2r;
-                        v1_i[i] = x2i;
-
-                        // Update the right-hand side
-                        for (idx_t j = 0; j + 1 < i; ++j) {
-                            // Real part
-                            v1_r[j] -= T_ii(j, i - 1) * v1_r[i - 1];
-                            v1_r[j] -= T_ii(j, i) * v1_r[i];
-
-                            // Imaginary part
-                            v1_i[j] -= T_ii(j, i - 1) * v1_i[i - 1];
-                            v1_i[j] -= T_ii(j, i) * v1_i[i];
+                    for (idx_t ii = 0; ii < nb;) {
+                        idx_t i = nb - 1 - ii;
+                        bool is_2x2_block = false;
+                        auto v1_r = col(X_ii, k);
+                        auto v1_i = col(X_ii, k + 1);
+                        if (i > 0) {
+                            if (T_ii(i, i - 1) != TT(0)) {
+                                is_2x2_block = true;
+                            }
                         }
 
-                        ii += 2;
-                    }
-                    else {
-                        // 1x1 block
-
-                        // Do the complex division:
-                        // (v1_r[i] + i*v1_i[i]) / (T11(i, i) - (wr + i*wi))
-                        // in real arithmetic only
-                        TT a = v1_r[i];
-                        TT b = v1_i[i];
-                        TT c = T_ii(i, i) - wr;
-                        TT d = -wi;
-                        TT denom = c * c + d * d;
-                        v1_r[i] = (a * c + b * d) / denom;
-                        v1_i[i] = (b * c - a * d) / denom;
-
-                        // Update the right-hand side
-                        for (idx_t j = 0; j < i; ++j) {
-                            v1_r[j] -= T_ii(j, i) * v1_r[i];
-                            v1_i[j] -= T_ii(j, i) * v1_i[i];
+                        if (is_2x2_block) {
+                            // 2x2 block
+
+                            // Solve the complex 2x2 system:
+                            // [T11(i-1,i-1)- (wr + i*wi)   T11(i-1,i) ] [T11(i,
+                            // i-1)               T11(i,  i)- (wr + i*wi)]
+                            // *
+                            // x
+                            // =
+                            // [v1_r[i-1] + i*v1_i[i-1]]
+                            // [v1_r[i]   + i*v1_i[i]  ]
+                            // Using real arithmetic only
+
+                            TT a11r = T_ii(i - 1, i - 1) - wr;
+                            TT a11i = -wi;
+                            TT a12 = T_ii(i - 1, i);
+                            TT a21 = T_ii(i, i - 1);
+                            TT a22r = T_ii(i, i) - wr;
+                            TT a22i = -wi;
+
+                            TT b1r = v1_r[i - 1];
+                            TT b1i = v1_i[i - 1];
+                            TT b2r = v1_r[i];
+                            TT b2i = v1_i[i];
+
+                            TT scale;
+                            trevc_2x2solve(a11r, a11i, a12, TT(0), a21, TT(0),
+                                           a22r, a22i, b1r, b1i, b2r, b2i,
+                                           scale, sf_min, sf_max, smin, spert);
+                            if (scale != TT(1)) {
+                                auto x_r = slice(X, range(0, ke), k);
+                                auto x_i = slice(X, range(0, ke), k + 1);
+                                scal(scale, x_r);
+                                scal(scale, x_i);
+                            }
+
+                            v1_r[i - 1] = b1r;
+                            v1_i[i - 1] = b1i;
+                            v1_r[i] = b2r;
+                            v1_i[i] = b2i;
+
+                            // Update the right-hand side
+                            for (idx_t j = 0; j + 1 < i; ++j) {
+                                // Real part
+                                v1_r[j] -= T_ii(j, i - 1) * v1_r[i - 1];
+                                v1_r[j] -= T_ii(j, i) * v1_r[i];
+
+                                // Imaginary part
+                                v1_i[j] -= T_ii(j, i - 1) * v1_i[i - 1];
+                                v1_i[j] -= T_ii(j, i) * v1_i[i];
+                            }
+
+                            ii += 2;
                         }
+                        else {
+                            // 1x1 block
+
+                            // Do the complex division:
+                            // (v1_r[i] + i*v1_i[i]) / (T11(i, i) - (wr + i*wi))
+                            // in real arithmetic only
+                            TT a = v1_r[i];
+                            TT b = v1_i[i];
+                            TT c = T_ii(i, i) - wr;
+                            TT d = -wi;
+                            ladiv(a, b, c, d, v1_r[i], v1_i[i]);
+
+                            // Update the right-hand side
+                            for (idx_t j = 0; j < i; ++j) {
+                                v1_r[j] -= T_ii(j, i) * v1_r[i];
+                                v1_i[j] -= T_ii(j, i) * v1_i[i];
+                            }
 
-                        ii += 1;
+                            ii += 1;
+                        }
                     }
                 }
 
@@ -246,6 +248,8 @@ void trevc3_backsolve(const matrix_T_t& T,
             }
             else {
                 TT w = shifts[k];
+                const real_t smin = trevc_smin(w);
+                const real_t spert = trevc_perturb(w, colN);
 
                 if constexpr (is_complex<TT>) {
                     // The matrix is complex, so there are no two-by-two blocks
@@ -254,7 +258,9 @@ void trevc3_backsolve(const matrix_T_t& T,
                     for (idx_t ii = 0; ii < nb; ++ii) {
                         idx_t i = nb - 1 - ii;
 
-                        X_ii(i, k) = X_ii(i, k) / (T_ii(i, i) - w);
+                        TT denom = T_ii(i, i) - w;
+                        if (abs1(denom) < smin) denom = spert;
+                        X_ii(i, k) = X_ii(i, k) / denom;
 
                         for (idx_t j = 0; j < i; ++j) {
                             X_ii(j, k) -= T_ii(j, i) * X_ii(i, k);
@@ -288,10 +294,16 @@ void trevc3_backsolve(const matrix_T_t& T,
                             TT c = T_ii(i, i - 1);
                             TT d = T_ii(i, i) - w;
 
-                            TT det = a * d - b * c;
+                            TT scale;
+                            trevc_2x2solve(a, b, c, d, rhs1, rhs2, scale,
+                                           sf_min, sf_max);
+                            if (scale != TT(1)) {
+                                auto x = slice(X, range(0, ke), k);
+                                scal(scale, x);
+                            }
 
-                            X_ii(i - 1, k) = (d * rhs1 - b * rhs2) / det;
-                            X_ii(i, k) = (-c * rhs1 + a * rhs2) / det;
+                            X_ii(i - 1, k) = rhs1;
+                            X_ii(i, k) = rhs2;
 
                             for (idx_t j = 0; j + 1 < i; ++j) {
                                 X_ii(j, k) -= T_ii(j, i - 1) * X_ii(i - 1, k);
@@ -302,7 +314,9 @@ void trevc3_backsolve(const matrix_T_t& T,
                         }
                         else {
                             // 1x1 block
-                            X_ii(i, k) = X_ii(i, k) / (T_ii(i, i) - w);
+                            TT denom = T_ii(i, i) - w;
+                            if (abs(denom) < smin) denom = spert;
+                            X_ii(i, k) = X_ii(i, k) / denom;
 
                             for (idx_t j = 0; j < i; ++j) {
                                 X_ii(j, k) -= T_ii(j, i) * X_ii(i, k);
diff --git a/include/tlapack/lapack/trevc3_forwardsolve.hpp b/include/tlapack/lapack/trevc3_forwardsolve.hpp
index 7756470..3819184 100644
--- a/include/tlapack/lapack/trevc3_forwardsolve.hpp
+++ b/include/tlapack/lapack/trevc3_forwardsolve.hpp
@@ -15,6 +15,7 @@
 #include "tlapack/base/utils.hpp"
 #include "tlapack/blas/asum.hpp"
 #include "tlapack/blas/gemm.hpp"
+#include "tlapack/blas/scal.hpp"
 #include "tlapack/lapack/laset.hpp"
 #include "tlapack/lapack/trevc_forwardsolve.hpp"
 
@@ -45,6 +46,9 @@ void trevc3_forwardsolve(const matrix_T_t& T,
 
     tlapack_check(ncols(T) == n);
 
+    const real_t sf_max = safe_max<real_t>();
+    const real_t sf_min = safe_min<real_t>();
+
     idx_t nk = ke - ks;
     auto [shifts, work2] = reshape(work, nk);
 
@@ -145,85 +149,83 @@ void trevc3_forwardsolve(const matrix_T_t& T,
             }
 
             if (pair) {
-                TT wr = shifts[k];
-                TT wi = shifts[k + 1];
-
-                for (idx_t i = 0; i < nb;) {
-                    bool is_2x2_block = false;
-                    if (i + 1 < nb) {
-                        if (T_ii(i + 1, i) != TT(0)) {
-                            is_2x2_block = true;
-                        }
-                    }
-
-                    if (is_2x2_block) {
-                        // 2x2 block
+                if constexpr (is_real<TT>) {
+                    TT wr = shifts[k];
+                    TT wi = shifts[k + 1];
+                    const real_t smin = trevc_smin(abs(wr) + wi);
+                    const real_t spert = trevc_perturb(abs(wr) + wi, colN);
 
-                        for (idx_t j = 0; j < i; ++j) {
-                            X_ii(i, k) -= T_ii(j, i) * X_ii(j, k);
-                            X_ii(i, k + 1) -= T_ii(j, i) * X_ii(j, k + 1);
-                            X_ii(i + 1, k) -= T_ii(j, i + 1) * X_ii(j, k);
-                            X_ii(i + 1, k + 1) -=
-                                T_ii(j, i + 1) * X_ii(j, k + 1);
+                    for (idx_t i = 0; i < nb;) {
+                        bool is_2x2_block = false;
+                        if (i + 1 < nb) {
+                            if (T_ii(i + 1, i) != TT(0)) {
+                                is_2x2_block = true;
+                            }
                         }
 
-                        // Solve the complex 2x2 system
-                        // Using real arithmetic only with Cramer's rule
-
-                        TT a11r = T_ii(i, i) - wr;
-                        TT a11i = wi;
-                        // a12 and a21 are switched to transpose the system
-                        TT a12 = T_ii(i + 1, i);
-                        TT a21 = T_ii(i, i + 1);
-                        TT a22r = T_ii(i + 1, i + 1) - wr;
-                        TT a22i = wi;
-
-                        TT b1r = X_ii(i, k);
-                        TT b1i = X_ii(i, k + 1);
-                        TT b2r = X_ii(i + 1, k);
-                        TT b2i = X_ii(i + 1, k + 1);
+                        if (is_2x2_block) {
+                            // 2x2 block
 
-                        TT detr = a11r * a22r - a11i * a22i - a12 * a21;
-                        TT deti = a11r * a22i + a11i * a22r;
+                            for (idx_t j = 0; j < i; ++j) {
+                                X_ii(i, k) -= T_ii(j, i) * X_ii(j, k);
+                                X_ii(i, k + 1) -= T_ii(j, i) * X_ii(j, k + 1);
+                                X_ii(i + 1, k) -= T_ii(j, i + 1) * X_ii(j, k);
+                                X_ii(i + 1, k + 1) -=
+                                    T_ii(j, i + 1) * X_ii(j, k + 1);
+                            }
 
-                        TT denom = detr * detr + deti * deti;
+                            // Solve the complex 2x2 system
+                            // Using real arithmetic only
+
+                            TT a11r = T_ii(i, i) - wr;
+                            TT a11i = wi;
+                            // a12 and a21 are switched to transpose the system
+                            TT a12 = T_ii(i + 1, i);
+                            TT a21 = T_ii(i, i + 1);
+                            TT a22r = T_ii(i + 1, i + 1) - wr;
+                            TT a22i = wi;
+
+                            TT b1r = X_ii(i, k);
+                            TT b1i = X_ii(i, k + 1);
+                            TT b2r = X_ii(i + 1, k);
+                            TT b2i = X_ii(i + 1, k + 1);
+
+                            TT scale;
+                            trevc_2x2solve(a11r, a11i, a12, TT(0), a21, TT(0),
+                                           a22r, a22i, b1r, b1i, b2r, b2i,
+                                           scale, sf_min, sf_max, smin, spert);
+                            if (scale != TT(1)) {
+                                auto x_r = slice(X, range(ks, n), k);
+                                auto x_i = slice(X, range(ks, n), k + 1);
+                                scal(scale, x_r);
+                                scal(scale, x_i);
+                            }
 
-                        TT c1r = a22r * b1r - a22i * b1i - a12 * b2r;
-                        TT c1i = a22r * b1i + a22i * b1r - a12 * b2i;
-                        TT x1r = (c1r * detr + c1i * deti) / denom;
-                        TT x1i = (c1i * detr - c1r * deti) / denom;
+                            X_ii(i, k) = b1r;
+                            X_ii(i, k + 1) = b1i;
+                            X_ii(i + 1, k) = b2r;
+                            X_ii(i + 1, k + 1) = b2i;
 
-                        TT c2r = (a11r * b2r - a11i * b2i) - (a21 * b1r);
-                        TT c2i = (a11r * b2i + a11i * b2r) - (a21 * b1i);
-                        TT x2r = (c2r * detr + c2i * deti) / denom;
-                        TT x2i = (c2i * detr - c2r * deti) / denom;
+                            i += 2;
+                        }
+                        else {
+                            // 1x1 block
+                            for (idx_t j = 0; j < i; ++j) {
+                                X_ii(i, k) -= T_ii(j, i) * X_ii(j, k);
+                                X_ii(i, k + 1) -= T_ii(j, i) * X_ii(j, k + 1);
+                            }
 
-                        X_ii(i, k) = x1r;
-                        X_ii(i, k + 1) = x1i;
-                        X_ii(i + 1, k) = x2r;
-                        X_ii(i + 1, k + 1) = x2i;
+                            // Do the complex division:
+                            // (v1_r[i] + i*v1_i[i]) / (T11(i, i) - (wr + i*wi))
+                            // in real arithmetic only
+                            TT a = X_ii(i, k);
+                            TT b = X_ii(i, k + 1);
+                            TT c = T_ii(i, i) - wr;
+                            TT d = wi;
+                            ladiv(a, b, c, d, X_ii(i, k), X_ii(i, k + 1));
 
-                        i += 2;
-                    }
-                    else {
-                        // 1x1 block
-                        for (idx_t j = 0; j < i; ++j) {
-                            X_ii(i, k) -= T_ii(j, i) * X_ii(j, k);
-                            X_ii(i, k + 1) -= T_ii(j, i) * X_ii(j, k + 1);
+                            i += 1;
                         }
-
-                        // Do the complex division:
-                        // (v1_r[i] + i*v1_i[i]) / (T11(i, i) - (wr + i*wi))
-                        // in real arithmetic only
-                        TT a = X_ii(i, k);
-                        TT b = X_ii(i, k + 1);
-                        TT c = T_ii(i, i) - wr;
-                        TT d = wi;
-                        TT denom = c * c + d * d;
-                        X_ii(i, k) = (a * c + b * d) / denom;
-                        X_ii(i, k + 1) = (b * c - a * d) / denom;
-
-                        i += 1;
                     }
                 }
 
@@ -231,6 +233,8 @@ void trevc3_forwardsolve(const matrix_T_t& T,
             }
             else {
                 TT w = shifts[k];
+                const real_t smin = trevc_smin(w);
+                const real_t spert = trevc_perturb(w, colN);
 
                 if constexpr (is_complex<TT>) {
                     // The matrix is complex, so there are no two-by-two blocks
@@ -241,7 +245,9 @@ void trevc3_forwardsolve(const matrix_T_t& T,
                             X_ii(i, k) -= conj(T_ii(j, i)) * X_ii(j, k);
                         }
 
-                        X_ii(i, k) = X_ii(i, k) / conj(T_ii(i, i) - w);
+                        TT denom = conj(T_ii(i, i) - w);
+                        if (abs1(denom) < smin) denom = spert;
+                        X_ii(i, k) = X_ii(i, k) / denom;
                     }
                 }
                 else {
@@ -277,10 +283,16 @@ void trevc3_forwardsolve(const matrix_T_t& T,
                             TT c = T_ii(i, i + 1);
                             TT d = T_ii(i + 1, i + 1) - w;
 
-                            TT det = a * d - b * c;
+                            TT scale;
+                            trevc_2x2solve(a, b, c, d, rhs1, rhs2, scale,
+                                           sf_min, sf_max);
+                            if (scale != TT(1)) {
+                                auto x = slice(X, range(ks, n), k);
+                                scal(scale, x);
+                            }
 
-                            X_ii(i, k) = (d * rhs1 - b * rhs2) / det;
-                            X_ii(i + 1, k) = (-c * rhs1 + a * rhs2) / det;
+                            X_ii(i, k) = rhs1;
+                            X_ii(i + 1, k) = rhs2;
 
                             i += 2;
                         }
@@ -290,7 +302,9 @@ void trevc3_forwardsolve(const matrix_T_t& T,
                                 X_ii(i, k) -= T_ii(j, i) * X_ii(j, k);
                             }
 
-                            X_ii(i, k) = X_ii(i, k) / (T_ii(i, i) - w);
+                            TT denom = T_ii(i, i) - w;
+                            if (abs(denom) < smin) denom = spert;
+                            X_ii(i, k) = X_ii(i, k) / denom;
 
                             i += 1;
                         }
diff --git a/include/tlapack/lapack/trevc_backsolve.hpp b/include/tlapack/lapack/trevc_backsolve.hpp
index d897916..b8bbbc1 100644
--- a/include/tlapack/lapack/trevc_backsolve.hpp
+++ b/include/tlapack/lapack/trevc_backsolve.hpp
@@ -106,6 +106,8 @@ void trevc_backsolve_single(const matrix_T_t& T,
     real_t scale = real_t(1);
 
     TT w = T(k, k);  // eigenvalue
+    const real_t smin = trevc_smin(w);
+    const real_t spert = trevc_perturb(w, colN);
 
     // Backsubstitution to solve the system
     auto T11 = slice(T, range(0, k), range(0, k));
@@ -193,6 +195,7 @@ void trevc_backsolve_single(const matrix_T_t& T,
             // The equations to take the scaling into account also don't
             // seem fully correct.
             TT denom = T11(i, i) - w;
+            if (abs(denom) < smin) denom = spert;
             // Scale factor so that we can safely calculate v1[i] / (T11(i, i) -
             // w)
             real_t scale1 = trevc_protectdiv(v1[i], denom, sf_min, sf_max);
@@ -287,6 +290,8 @@ void trevc_backsolve_single(const matrix_T_t& T,
     real_t scale = real_t(1);
 
     TT w = T(k, k);  // eigenvalue
+    const real_t smin = trevc_smin(w);
+    const real_t spert = trevc_perturb(w, colN);
 
     // Backsubstitution to solve the system
     auto T11 = slice(T, range(0, k), range(0, k));
@@ -295,6 +300,7 @@ void trevc_backsolve_single(const matrix_T_t& T,
     for (idx_t ii = 0; ii < k; ++ii) {
         idx_t i = k - 1 - ii;
         TT denom = T11(i, i) - w;
+        if (abs1(denom) < smin) denom = spert;
         // Scale factor so that we can safely calculate v1[i] / (T11(i, i) - w)
         real_t scale1 = trevc_protectdiv(v1[i], denom, sf_min, sf_max);
 
@@ -440,6 +446,8 @@ void trevc_backsolve_double(const matrix_T_t& T,
     TT wr = alpha;
     // imaginary part of eigenvalue
     TT wi = sqrt(abs(beta)) * sqrt(abs(gamma));
+    const TT smin = trevc_smin(abs(wr) + wi);
+    const TT spert = trevc_perturb(abs(wr) + wi, colN);
 
     // Depending of whether beta or gamma is bigger, we set x2 = 1 or x3 = i
     TT x2, x3;
@@ -511,7 +519,7 @@ void trevc_backsolve_double(const matrix_T_t& T,
 
             TT scale1;
             trevc_2x2solve(a11r, a11i, a12, TT(0), a21, TT(0), a22r, a22i, b1r,
-                           b1i, b2r, b2i, scale1, sf_min, sf_max);
+                           b1i, b2r, b2i, scale1, sf_min, sf_max, smin, spert);
 
             v1_r[i - 1] = b1r;
             v1_i[i - 1] = b1i;
diff --git a/include/tlapack/lapack/trevc_forwardsolve.hpp b/include/tlapack/lapack/trevc_forwardsolve.hpp
index 4c6dd65..62d135a 100644
--- a/include/tlapack/lapack/trevc_forwardsolve.hpp
+++ b/include/tlapack/lapack/trevc_forwardsolve.hpp
@@ -101,6 +101,8 @@ void trevc_forwardsolve_single(const matrix_T_t& T,
     }
 
     TT w = T(k, k);  // eigenvalue
+    const real_t smin = trevc_smin(w);
+    const real_t spert = trevc_perturb(w, colN);
 
     // Forward substitution to solve the system
     auto T33 = slice(T, range(k + 1, n), range(k + 1, n));
@@ -200,6 +202,7 @@ void trevc_forwardsolve_single(const matrix_T_t& T,
             // Step 2: division
 
             real_t denom = T33(i, i) - w;
+            if (abs(denom) < smin) denom = spert;
             real_t scale2 = trevc_protectdiv(v3[i], denom, sf_min, sf_max);
             v3[i] = (scale2 * v3[i]) / denom;
 
@@ -260,6 +263,8 @@ void trevc_forwardsolve_single(const matrix_T_t& T,
     }
 
     TT w = T(k, k);  // eigenvalue
+    const real_t smin = trevc_smin(w);
+    const real_t spert = trevc_perturb(w, colN);
 
     // Forward substitution to solve the system
     auto T33 = slice(T, range(k + 1, n), range(k + 1, n));
@@ -291,6 +296,7 @@ void trevc_forwardsolve_single(const matrix_T_t& T,
         // Step 2: division
 
         TT denom = conj(T33(i, i) - w);
+        if (abs1(denom) < smin) denom = spert;
         real_t scale2 = trevc_protectdiv(v3[i], denom, sf_min, sf_max);
         v3[i] = ladiv(scale2 * v3[i], denom);
 
@@ -396,6 +402,8 @@ void trevc_forwardsolve_double(const matrix_T_t& T,
     TT wr = alpha;
     // imaginary part of eigenvalue
     TT wi = sqrt(abs(beta)) * sqrt(abs(gamma));
+    const TT smin = trevc_smin(abs(wr) + wi);
+    const TT spert = trevc_perturb(abs(wr) + wi, colN);
 
     // Depending of whether beta or gamma is bigger, we set y2 = 1 or y3 = i
     TT y2, y3;
@@ -500,7 +508,7 @@ void trevc_forwardsolve_double(const matrix_T_t& T,
             TT scale2;
             trevc_2x2solve(a11r, a11i, a12, TT(0), a21, TT(0), a22r, a22i,
                            v4_r[i], v4_i[i], v4_r[i + 1], v4_i[i + 1], scale2,
-                           sf_min, sf_max);
+                           sf_min, sf_max, smin, spert);
 
             if (scale2 != TT(1)) {
                 // Apply scale2 to all of v4_r and v4_i
diff --git a/include/tlapack/lapack/trevc_protect.hpp b/include/tlapack/lapack/trevc_protect.hpp
index 7b89251..d41a24a 100644
--- a/include/tlapack/lapack/trevc_protect.hpp
+++ b/include/tlapack/lapack/trevc_protect.hpp
@@ -12,8 +12,10 @@
 #ifndef TLAPACK_TREVC_PROTECT_HH
 #define TLAPACK_TREVC_PROTECT_HH
 
+#include "tlapack/base/constants.hpp"
 #include "tlapack/base/utils.hpp"
 #include "tlapack/blas/asum.hpp"
+#include "tlapack/blas/iamax.hpp"
 #include "tlapack/lapack/ladiv.hpp"
 
 namespace tlapack {
@@ -116,6 +118,40 @@ real_type<T> trevc_protectdiv(
     return trevc_protectdiv(a1, b1, sf_min, sf_max);
 }
 
+/**
+ * Threshold below which a divisor is considered to be zero when solving with
+ * the shifted matrix T - w*I. This happens if w is a repeated eigenvalue.
+ *
+ * @param w Eigenvalue (or an upper bound on its modulus)
+ *
+ * @return Threshold
+ *
+ */
+template <TLAPACK_SCALAR T>
+real_type<T> trevc_smin(const T& w)
+{
+    using real_t = real_type<T>;
+    return std::max<real_t>(ulp<real_t>() * abs1(w), safe_min<real_t>());
+}
+
+/**
+ * Value that replaces divisors smaller than trevc_smin(w). This perturbs T by
+ * a small multiple of its norm, and limits the growth of the eigenvectors.
+ *
+ * @param w Eigenvalue (or an upper bound on its modulus)
+ * @param colN Norms of the columns of T, see trevc_colnorms
+ *
+ * @return Nonzero divisor
+ *
+ */
+template <TLAPACK_SCALAR T, TLAPACK_VECTOR vector_colN_t>
+real_type<T> trevc_perturb(const T& w, const vector_colN_t& colN)
+{
+    using real_t = real_type<T>;
+    const real_t tnorm = (size(colN) > 0) ? colN[iamax(colN)] : real_t(0);
+    return std::max<real_t>(trevc_smin(w), ulp<real_t>() * tnorm);
+}
+
 /**
  * Given the infinity norms of the matrices Y, T, and X, calculate a scaling
  * factor scale in (0, 1] such that the update Z = scale*Y - T * (scale * X)
@@ -320,6 +356,9 @@ void trevc_2x2solve(
  *
  * where scale is a scaling factor to avoid overflow during the solve
  *
+ * If the matrix is (nearly) singular, i.e., if its last pivot is smaller than
+ * smin, it is perturbed so that this pivot becomes spert.
+ *
  */
 template <TLAPACK_SCALAR T, enable_if_t<is_real<T>, int> = 0>
 void trevc_2x2solve(T ar,
@@ -336,7 +375,9 @@ void trevc_2x2solve(T ar,
                     T& x2i,
                     T& scale,
                     T sf_min,
-                    T sf_max)
+                    T sf_max,
+                    T smin = T(0),
+                    T spert = T(0))
 {
     //
     // Step 1: compute LU factorization with complete pivoting
@@ -432,6 +473,10 @@ void trevc_2x2solve(T ar,
     // u11 = d - l10 * u01
     T u11r = dr - (l10r * u01r - l10i * u01i);
     T u11i = di - (l10r * u01i + l10i * u01r);
+    if (abs(u11r) + abs(u11i) < smin) {
+        u11r = spert;
+        u11i = T(0);
+    }
 
     // Step 3: Solve Ly = scale1 * rhs
     // y1 = scale1 * rhs1
-- 
2.43.0


From 5dc1a9da9aad44edc5e4168a413859e1a2d9367d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:46 +0000
Subject: [PATCH 057/101] fix: trevc3 must not read uninitialized workspace
 when backtransforming

---
 include/tlapack/lapack/trevc3.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/trevc3.hpp b/include/tlapack/lapack/trevc3.hpp
index d436e95..646eced 100644
--- a/include/tlapack/lapack/trevc3.hpp
+++ b/include/tlapack/lapack/trevc3.hpp
@@ -318,8 +318,7 @@ int trevc3_work(const side_t side,
                 auto X_block = slice(X, range(0, i_end + 1), range(0, nb2));
                 auto [Qx, work3] = reshape(work2, n, nb2);
 
-                gemm(Op::NoTrans, Op::NoTrans, TT(1), Q_slice, X_block, TT(0),
-                     Qx);
+                gemm(Op::NoTrans, Op::NoTrans, TT(1), Q_slice, X_block, Qx);
 
                 auto Vr_block =
                     slice(Vr, range(0, n), range(i_start, i_end + 1));
@@ -399,8 +398,7 @@ int trevc3_work(const side_t side,
                 auto X_block = slice(X, range(i_start, n), range(0, nb2));
                 auto [Qx, work3] = reshape(work2, n, nb2);
 
-                gemm(Op::NoTrans, Op::NoTrans, TT(1), Q_slice, X_block, TT(0),
-                     Qx);
+                gemm(Op::NoTrans, Op::NoTrans, TT(1), Q_slice, X_block, Qx);
 
                 auto Vl_block =
                     slice(Vl, range(0, n), range(i_start, i_end + 1));
-- 
2.43.0


From f8189deff0729468264f703cc8b571df5ec04529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:46 +0000
Subject: [PATCH 058/101] fix: trevc3.hpp uses the include guard of trevc.hpp
 and redefines HowMny

---
 include/tlapack/lapack/trevc3.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/tlapack/lapack/trevc3.hpp b/include/tlapack/lapack/trevc3.hpp
index 646eced..4ce9834 100644
--- a/include/tlapack/lapack/trevc3.hpp
+++ b/include/tlapack/lapack/trevc3.hpp
@@ -9,12 +9,15 @@
 // <T>LAPACK is free software: you can redistribute it and/or modify it under
 // the terms of the BSD 3-Clause license. See the accompanying LICENSE file.
 
-#ifndef TLAPACK_TREVC_HH
-#define TLAPACK_TREVC_HH
+#ifndef TLAPACK_TREVC3_HH
+#define TLAPACK_TREVC3_HH
 
 #include "tlapack/base/utils.hpp"
 #include "tlapack/blas/asum.hpp"
+#include "tlapack/blas/gemm.hpp"
 #include "tlapack/blas/gemv.hpp"
+#include "tlapack/lapack/lacpy.hpp"
+#include "tlapack/lapack/trevc.hpp"
 #include "tlapack/lapack/trevc3_backsolve.hpp"
 #include "tlapack/lapack/trevc3_forwardsolve.hpp"
 
@@ -30,12 +33,6 @@ struct Trevc3Opts {
     size_t block_size_solve = 64;
 };
 
-enum class HowMny : char {
-    All = 'A',    ///< all eigenvectors
-    Back = 'B',   ///< all eigenvectors, backtransformed by input matrix
-    Select = 'S'  ///< selected eigenvectors
-};
-
 /** Worspace query of TREVC3()
  *
  * @param[in] side tlapack::Side
@@ -522,4 +519,4 @@ int trevc3(const side_t side,
 }
 }  // namespace tlapack
 
-#endif  // TLAPACK_TREVC_HH
+#endif  // TLAPACK_TREVC3_HH
-- 
2.43.0


From d467f2d4bd20a303dac13f431d5a0f8134e52e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:46 +0000
Subject: [PATCH 059/101] fix: trevc3 with selected eigenvalues reads unset
 indices and skips or repeats blocks

---
 include/tlapack/lapack/trevc3.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/lapack/trevc3.hpp b/include/tlapack/lapack/trevc3.hpp
index 4ce9834..4ff9bb7 100644
--- a/include/tlapack/lapack/trevc3.hpp
+++ b/include/tlapack/lapack/trevc3.hpp
@@ -265,13 +265,17 @@ int trevc3_work(const side_t side,
             if (howmny == HowMny::Select) {
                 // Find the first eigenvalue with index <= i with select ==
                 // true
+                bool found = false;
                 for (idx_t jj = 0; jj < i + 1; jj++) {
                     idx_t j = i - jj;
                     if (select[j]) {
                         i_end = j;
+                        found = true;
                         break;
                     }
                 }
+                // All selected eigenvectors have been computed
+                if (!found) break;
                 // Find the last eigenvalue with index <= i_end with select ==
                 // true
                 i_start = 0;
@@ -329,7 +333,7 @@ int trevc3_work(const side_t side,
                 iVr -= nb2;
             }
 
-            ii += nb2;
+            ii = n - i_start;
         }
     }
 
@@ -347,17 +351,21 @@ int trevc3_work(const side_t side,
             if (howmny == HowMny::Select) {
                 // Find the first eigenvalue with index <= i with select ==
                 // true
+                bool found = false;
                 for (idx_t j = i; j < n; j++) {
                     if (select[j]) {
                         i_start = j;
+                        found = true;
                         break;
                     }
                 }
+                // All selected eigenvectors have been computed
+                if (!found) break;
                 // Find the last eigenvalue with index <= i_end with select ==
                 // true
                 i_end = n - 1;
                 for (idx_t j = i_start + 1; j < n; j++) {
-                    if (j > i_start + nb) {
+                    if (j >= i_start + nb) {
                         // Don't make the block too big
                         i_end = j - 1;
                         break;
@@ -408,7 +416,7 @@ int trevc3_work(const side_t side,
                 iVl += nb2;
             }
 
-            i += nb2;
+            i = i_end + 1;
         }
     }
 
-- 
2.43.0


From 4d4e9b33681eb537bcf036faa5aff60d72886a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 060/101] fix: infnorm_triangular_colmajor writes past its
 workspace and skips the first column of unit lower triangular matrices

---
 include/tlapack/lapack/infnorm_triangular_colmajor.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
index 967f94d..e7edf64 100644
--- a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
@@ -81,9 +81,6 @@ auto infnorm_triangular_colmajor_work(uplo_t uplo,
     // Norm value
     real_t norm(0);
 
-    for (idx_t i = 0; i < n; ++i)
-        w[i] = T(0);
-
     if (uplo == Uplo::Upper) {
         if (diag == Diag::NonUnit) {
             for (idx_t i = 0; i < m; ++i)
@@ -118,7 +115,7 @@ auto infnorm_triangular_colmajor_work(uplo_t uplo,
             for (idx_t i = n; i < m; ++i)
                 w[i] = real_t(0);
 
-            for (idx_t j = 1; j < n; ++j) {
+            for (idx_t j = 0; j < n; ++j) {
                 for (idx_t i = j + 1; i < m; ++i)
                     w[i] += abs(A(i, j));
             }
-- 
2.43.0


From a4cc651f5051ae421284e3e9b1da6774f3125e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 061/101] fix: allocating infnorm_*_colmajor variants do not
 compile

---
 include/tlapack/lapack/infnorm_colmajor.hpp          |  9 ++++++---
 .../tlapack/lapack/infnorm_hermitian_colmajor.hpp    | 11 +++++++----
 .../tlapack/lapack/infnorm_symmetric_colmajor.hpp    | 11 +++++++----
 .../tlapack/lapack/infnorm_triangular_colmajor.hpp   | 12 ++++++++----
 4 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/include/tlapack/lapack/infnorm_colmajor.hpp b/include/tlapack/lapack/infnorm_colmajor.hpp
index 7ca5d24..2b20997 100644
--- a/include/tlapack/lapack/infnorm_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_colmajor.hpp
@@ -102,10 +102,13 @@ auto infnorm_colmajor(const matrix_t& A)
     // quick return
     if (m == 0 || n == 0) return real_t(0);
 
+    // Functor
+    Create<vector_type<matrix_t>> new_vector;
+
     // Allocates workspace
-    WorkInfo workinfo = infnorm_colmajor_worksize<T>(A);
-    std::vector<T> work_;
-    auto work = new_matrix(work_, workinfo.m, workinfo.n);
+    WorkInfo workinfo = infnorm_colmajor_worksize<real_t>(A);
+    std::vector<real_t> work_;
+    auto work = new_vector(work_, workinfo.m * workinfo.n);
 
     return infnorm_colmajor_work(A, work);
 }
diff --git a/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp b/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp
index 474063d..78aedf9 100644
--- a/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp
@@ -69,7 +69,7 @@ auto infnorm_hermitian_colmajor_work(uplo_t uplo,
     real_t norm(0);
 
     for (idx_t i = 0; i < n; ++i)
-        w[i] = T(0);
+        w[i] = real_t(0);
 
     if (uplo == Uplo::Upper) {
         for (idx_t j = 0; j < n; ++j) {
@@ -140,10 +140,13 @@ auto infnorm_hermitian_colmajor(uplo_t uplo, const matrix_t& A)
     // quick return
     if (n <= 0) return real_t(0);
 
+    // Functor
+    Create<vector_type<matrix_t>> new_vector;
+
     // Allocates workspace
-    WorkInfo workinfo = infnorm_hermitian_colmajor_worksize<T>(uplo, A);
-    std::vector<T> work_;
-    auto work = new_matrix(work_, workinfo.m, workinfo.n);
+    WorkInfo workinfo = infnorm_hermitian_colmajor_worksize<real_t>(uplo, A);
+    std::vector<real_t> work_;
+    auto work = new_vector(work_, workinfo.m * workinfo.n);
 
     return infnorm_hermitian_colmajor_work(uplo, A, work);
 }
diff --git a/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp b/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp
index 9cf0a0a..fd70554 100644
--- a/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp
@@ -69,7 +69,7 @@ auto infnorm_symmetric_colmajor_work(uplo_t uplo,
     real_t norm(0);
 
     for (idx_t i = 0; i < n; ++i)
-        w[i] = T(0);
+        w[i] = real_t(0);
 
     if (uplo == Uplo::Upper) {
         for (idx_t j = 0; j < n; ++j) {
@@ -140,10 +140,13 @@ auto infnorm_symmetric_colmajor(uplo_t uplo, const matrix_t& A)
     // quick return
     if (n <= 0) return real_t(0);
 
+    // Functor
+    Create<vector_type<matrix_t>> new_vector;
+
     // Allocates workspace
-    WorkInfo workinfo = infnorm_symmetric_colmajor_worksize<T>(uplo, A);
-    std::vector<T> work_;
-    auto work = new_matrix(work_, workinfo.m, workinfo.n);
+    WorkInfo workinfo = infnorm_symmetric_colmajor_worksize<real_t>(uplo, A);
+    std::vector<real_t> work_;
+    auto work = new_vector(work_, workinfo.m * workinfo.n);
 
     return infnorm_symmetric_colmajor_work(uplo, A, work);
 }
diff --git a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
index e7edf64..c9cebec 100644
--- a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
@@ -173,12 +173,16 @@ auto infnorm_triangular_colmajor(uplo_t uplo, diag_t diag, const matrix_t& A)
     // quick return
     if (m == 0 || n == 0) return real_t(0);
 
+    // Functor
+    Create<vector_type<matrix_t>> new_vector;
+
     // Allocates workspace
-    WorkInfo workinfo = infnorm_triangular_colmajor_worksize<T>(uplo, A);
-    std::vector<T> work_;
-    auto work = new_matrix(work_, workinfo.m, workinfo.n);
+    WorkInfo workinfo =
+        infnorm_triangular_colmajor_worksize<real_t>(uplo, diag, A);
+    std::vector<real_t> work_;
+    auto work = new_vector(work_, workinfo.m * workinfo.n);
 
-    return infnorm_triangular_colmajor_work(uplo, A, work);
+    return infnorm_triangular_colmajor_work(uplo, diag, A, work);
 }
 
 }  // namespace tlapack
-- 
2.43.0


From 965fd24968752f95066a73478221cd1c8a0a5eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 062/101] fix: lascl reads and scales one row past an upper
 Hessenberg matrix

---
 include/tlapack/lapack/lascl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/lascl.hpp b/include/tlapack/lapack/lascl.hpp
index 0d760ee..d17cf00 100644
--- a/include/tlapack/lapack/lascl.hpp
+++ b/include/tlapack/lapack/lascl.hpp
@@ -130,7 +130,7 @@ int lascl(uplo_t uplo, const b_type& b, const a_type& a, matrix_t& A)
 
         if (uplo == Uplo::UpperHessenberg) {
             for (idx_t j = 0; j < n; ++j)
-                for (idx_t i = 0; i < ((j < m) ? j + 2 : m); ++i)
+                for (idx_t i = 0; i < ((j + 1 < m) ? j + 2 : m); ++i)
                     A(i, j) *= c;
         }
         else if (uplo == Uplo::Upper) {
-- 
2.43.0


From 0b145eb5df434bd546230cfb5eb8760b2c16c284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 063/101] fix: rot_sequence3 repeats the startup rotations when
 more than one block is needed

---
 include/tlapack/lapack/rot_sequence3.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/rot_sequence3.hpp b/include/tlapack/lapack/rot_sequence3.hpp
index d9c9ee0..b5b0f34 100644
--- a/include/tlapack/lapack/rot_sequence3.hpp
+++ b/include/tlapack/lapack/rot_sequence3.hpp
@@ -133,7 +133,7 @@ void rot_sequence3(
                 for (idx_t ib = 0; ib < n; ib += nb) {
                     idx_t ib2 = std::min(ib + nb, n);
                     // Startup phase
-                    for (idx_t i1 = 0; i1 < n; ++i1) {
+                    for (idx_t i1 = ib; i1 < ib2; ++i1) {
                         for (idx_t j = 0; j < l - 1; ++j) {
                             for (idx_t i = 0, g2 = j; i < j + 1; ++i, --g2) {
                                 idx_t g = m - 2 - g2;
@@ -536,7 +536,7 @@ void rot_sequence3(
                     for (idx_t j = 0; j < l - 1; ++j) {
                         for (idx_t i = 0, g2 = j; i < j + 1; ++i, --g2) {
                             idx_t g = m - 2 - g2;
-                            for (idx_t i1 = 0; i1 < n; ++i1) {
+                            for (idx_t i1 = ib; i1 < ib2; ++i1) {
                                 T temp =
                                     C(g, i) * A(g, i1) + S(g, i) * A(g + 1, i1);
                                 A(g + 1, i1) = -conj(S(g, i)) * A(g, i1) +
-- 
2.43.0


From 82dc623f7aceddc2cb06c20938c5ee2920b04218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 064/101] fix: rscl underflows for complex scalars with
 components of very different size

---
 include/tlapack/lapack/rscl.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/tlapack/lapack/rscl.hpp b/include/tlapack/lapack/rscl.hpp
index 6931f17..627921c 100644
--- a/include/tlapack/lapack/rscl.hpp
+++ b/include/tlapack/lapack/rscl.hpp
@@ -129,6 +129,15 @@ void rscl(const alpha_t& alpha, vector_t& x)
                 // Propagates zero.
                 scal(alpha_t(one / a, -one / b), x);
             }
+            else if (abs(a) <= safeMax) {
+                // |alphaI| << |alphaR| and 1/a is in the safe range. Scaling x
+                // by safeMin could underflow.
+                scal(alpha_t(one / a, -(alphaI / alphaR) / a), x);
+            }
+            else if (abs(b) <= safeMax) {
+                // |alphaR| << |alphaI| and 1/b is in the safe range.
+                scal(alpha_t((alphaR / alphaI) / b, -one / b), x);
+            }
             else {
                 scal(safeMin, x);
                 if (isinf(a) || isinf(b)) {
-- 
2.43.0


From 3f3f3a3fb6c35ddc01137e5dfe9a085114861baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:22 +0000
Subject: [PATCH 065/101] fix: tik_bidiag_elden and tik_svd fail on a matrix
 without columns

---
 include/tlapack/lapack/tik_bidiag_elden.hpp | 3 +++
 include/tlapack/lapack/tik_svd.hpp          | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/tlapack/lapack/tik_bidiag_elden.hpp b/include/tlapack/lapack/tik_bidiag_elden.hpp
index 4659d9a..6cff3bd 100644
--- a/include/tlapack/lapack/tik_bidiag_elden.hpp
+++ b/include/tlapack/lapack/tik_bidiag_elden.hpp
@@ -63,6 +63,9 @@ void tik_bidiag_elden(matrixA_t& A, matrixb_t& b, real_t lambda)
     const idx_t n = ncols(A);
     const idx_t k = ncols(b);
 
+    // quick return
+    if (n == 0) return;
+
     // Bidiagonal decomposition
     std::vector<T> tauv(n);
     std::vector<T> tauw(n);
diff --git a/include/tlapack/lapack/tik_svd.hpp b/include/tlapack/lapack/tik_svd.hpp
index ff8e0f4..7e64660 100644
--- a/include/tlapack/lapack/tik_svd.hpp
+++ b/include/tlapack/lapack/tik_svd.hpp
@@ -48,6 +48,9 @@ void tik_svd(matrixA_t& A, matrixb_t& b, real_t lambda)
 
     using range = pair<idx_t, idx_t>;
 
+    // quick return
+    if (n == 0) return;
+
     std::vector<T> tauv(n);
     std::vector<T> tauw(n);
 
-- 
2.43.0


From 6cfe2c0ec60bb4f1f6fdd5d4ee04c9e36f4b198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:32 +0000
Subject: [PATCH 066/101] fix: tik_svd squares singular values, which
 underflows or overflows

---
 include/tlapack/lapack/tik_svd.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/tik_svd.hpp b/include/tlapack/lapack/tik_svd.hpp
index 7e64660..5e985e1 100644
--- a/include/tlapack/lapack/tik_svd.hpp
+++ b/include/tlapack/lapack/tik_svd.hpp
@@ -14,6 +14,7 @@
 
 #include <tlapack/lapack/bidiag.hpp>
 #include <tlapack/lapack/lange.hpp>
+#include <tlapack/lapack/lapy2.hpp>
 #include <tlapack/lapack/laset.hpp>
 #include <tlapack/lapack/svd_qr.hpp>
 #include <tlapack/lapack/ungbr.hpp>
@@ -92,9 +93,12 @@ void tik_svd(matrixA_t& A, matrixb_t& b, real_t lambda)
     auto work = new_matrix(work_, n, k);
     gemm(CONJ_TRANS, NO_TRANS, real_t(1), Q2, x, work);
 
-    for (idx_t j = 0; j < n; ++j)
+    for (idx_t j = 0; j < n; ++j) {
+        // d/(d^2+lambda^2) without squaring, which can overflow or underflow
+        const real_t h = lapy2(d[j], lambda);
         for (idx_t i = 0; i < k; ++i)
-            work(j, i) *= (d[j] / ((d[j] * d[j]) + (lambda * lambda)));
+            work(j, i) = (work(j, i) * (d[j] / h)) / h;
+    }
 
     // Apply P2ᴴ
 
-- 
2.43.0


From b8950e0170c8eb816cda58ec16e79a146a71fa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:38 +0000
Subject: [PATCH 067/101] fix: reshape of a non-contiguous matrix to an empty
 one ignores the requested sizes

---
 include/tlapack/plugins/legacyArray.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/plugins/legacyArray.hpp b/include/tlapack/plugins/legacyArray.hpp
index 744eeca..2601226 100644
--- a/include/tlapack/plugins/legacyArray.hpp
+++ b/include/tlapack/plugins/legacyArray.hpp
@@ -600,10 +600,12 @@ auto reshape(LegacyMatrix<T, idx_t, layout>& A,
                 : matrix_t(1, size - new_size, &A.ptr[0] + new_size));
     }
     else {
-        if (m == A.m || n == 0)
+        if (new_size == 0)
+            return std::make_pair(matrix_t(m, n, &A.ptr[0]), A);
+        else if (m == A.m)
             return std::make_pair(cols(A, std::pair{(idx_t)0, n}),
                                   cols(A, std::pair{n, A.n}));
-        else if (n == A.n || m == 0)
+        else if (n == A.n)
             return std::make_pair(rows(A, std::pair{(idx_t)0, m}),
                                   rows(A, std::pair{m, A.m}));
         else
-- 
2.43.0


From 5e5f82d794a59a8f69344f3244fd19651a5ee67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:09 +0000
Subject: [PATCH 068/101] fix: slice of a backward LegacyVector starts at the
 wrong element

---
 include/tlapack/plugins/legacyArray.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/plugins/legacyArray.hpp b/include/tlapack/plugins/legacyArray.hpp
index 2601226..74914f5 100644
--- a/include/tlapack/plugins/legacyArray.hpp
+++ b/include/tlapack/plugins/legacyArray.hpp
@@ -380,8 +380,11 @@ constexpr auto slice(const LegacyVector<T, idx_t, int_t, direction>& v,
            rows.first == rows.second);
     assert(rows.second >= 0 and (idx_t) rows.second <= size(v));
     assert(rows.first <= rows.second);
+    const idx_t offset = (direction == Direction::Forward)
+                             ? (idx_t)rows.first
+                             : (idx_t)(v.n - (idx_t)rows.second);
     return LegacyVector<const T, idx_t, int_t, direction>(
-        rows.second - rows.first, &v.ptr[rows.first * v.inc], v.inc);
+        rows.second - rows.first, &v.ptr[offset * v.inc], v.inc);
 }
 
 // -----------------------------------------------------------------------------
@@ -568,8 +571,11 @@ constexpr auto slice(LegacyVector<T, idx_t, int_t, direction>& v,
            rows.first == rows.second);
     assert(rows.second >= 0 and (idx_t) rows.second <= size(v));
     assert(rows.first <= rows.second);
+    const idx_t offset = (direction == Direction::Forward)
+                             ? (idx_t)rows.first
+                             : (idx_t)(v.n - (idx_t)rows.second);
     return LegacyVector<T, idx_t, int_t, direction>(
-        rows.second - rows.first, &v.ptr[rows.first * v.inc], v.inc);
+        rows.second - rows.first, &v.ptr[offset * v.inc], v.inc);
 }
 
 // Reshape LegacyMatrix
-- 
2.43.0


From 31e74f070bafeb9956d37b976b538c0b5c39f032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:40 +0000
Subject: [PATCH 069/101] fix: legacy rank-k updates with alpha = 0 overwrite
 the opposite triangle of C

---
 include/tlapack/legacy_api/blas/her2k.hpp | 6 ++++--
 include/tlapack/legacy_api/blas/herk.hpp  | 6 ++++--
 include/tlapack/legacy_api/blas/syr2k.hpp | 6 ++++--
 include/tlapack/legacy_api/blas/syrk.hpp  | 6 ++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/tlapack/legacy_api/blas/her2k.hpp b/include/tlapack/legacy_api/blas/her2k.hpp
index dbcc272..33baee2 100644
--- a/include/tlapack/legacy_api/blas/her2k.hpp
+++ b/include/tlapack/legacy_api/blas/her2k.hpp
@@ -162,12 +162,14 @@ namespace legacy {
         if (alpha == scalar_t(0)) {
             if (beta == real_t(0)) {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = (uplo == Uplo::Lower) ? j : 0;
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) = TC(0);
             }
             else {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = (uplo == Uplo::Lower) ? j : 0;
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) *= beta;
             }
         }
diff --git a/include/tlapack/legacy_api/blas/herk.hpp b/include/tlapack/legacy_api/blas/herk.hpp
index e75494c..013c2a1 100644
--- a/include/tlapack/legacy_api/blas/herk.hpp
+++ b/include/tlapack/legacy_api/blas/herk.hpp
@@ -140,12 +140,14 @@ namespace legacy {
         if (alpha == real_t(0)) {
             if (beta == real_t(0)) {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = (uplo == Uplo::Lower) ? j : 0;
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) = TC(0);
             }
             else {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = (uplo == Uplo::Lower) ? j : 0;
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) *= beta;
             }
         }
diff --git a/include/tlapack/legacy_api/blas/syr2k.hpp b/include/tlapack/legacy_api/blas/syr2k.hpp
index b5e1500..6a8e743 100644
--- a/include/tlapack/legacy_api/blas/syr2k.hpp
+++ b/include/tlapack/legacy_api/blas/syr2k.hpp
@@ -162,12 +162,14 @@ namespace legacy {
         if (alpha == scalar_t(0)) {
             if (beta == scalar_t(0)) {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = (uplo == Uplo::Lower) ? j : 0;
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) = TC(0);
             }
             else {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = (uplo == Uplo::Lower) ? j : 0;
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) *= beta;
             }
         }
diff --git a/include/tlapack/legacy_api/blas/syrk.hpp b/include/tlapack/legacy_api/blas/syrk.hpp
index 41d9a22..3afa469 100644
--- a/include/tlapack/legacy_api/blas/syrk.hpp
+++ b/include/tlapack/legacy_api/blas/syrk.hpp
@@ -142,12 +142,14 @@ namespace legacy {
         if (alpha == scalar_t(0)) {
             if (beta == scalar_t(0)) {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = (uplo == Uplo::Lower) ? j : 0;
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) = TC(0);
             }
             else {
                 for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                    for (idx_t i = (uplo == Uplo::Lower) ? j : 0;
+                         i < ((uplo == Uplo::Upper) ? j + 1 : n); ++i)
                         C_(i, j) *= beta;
             }
         }
-- 
2.43.0


From 55d379bc2a133bbee429cd1ff24f6c17462afcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:40 +0000
Subject: [PATCH 070/101] fix: row-major legacy her and her2 compute the
 conjugated update

---
 include/tlapack/legacy_api/blas/her.hpp  | 20 +++++++++++++-------
 include/tlapack/legacy_api/blas/her2.hpp | 21 +++++++++++++--------
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/include/tlapack/legacy_api/blas/her.hpp b/include/tlapack/legacy_api/blas/her.hpp
index db2fb72..b51b789 100644
--- a/include/tlapack/legacy_api/blas/her.hpp
+++ b/include/tlapack/legacy_api/blas/her.hpp
@@ -71,6 +71,7 @@ namespace legacy {
              idx_t lda)
     {
         using internal::create_matrix;
+        using internal::create_rowmajor_matrix;
         using real_t = real_type<TA, TX>;
 
         // check arguments
@@ -84,15 +85,20 @@ namespace legacy {
         // quick return
         if (n == 0 || alpha == real_t(0)) return;
 
-        // for row major, swap lower <=> upper
-        if (layout == Layout::RowMajor) {
-            uplo = (uplo == Uplo::Lower ? Uplo::Upper : Uplo::Lower);
-        }
+        if (layout == Layout::ColMajor) {
+            // Matrix views
+            auto A_ = create_matrix<TA>(A, n, n, lda);
 
-        // Matrix views
-        auto A_ = create_matrix<TA>(A, n, n, lda);
+            tlapack_expr_with_vector(x_, TX, n, x, incx,
+                                     return her(uplo, alpha, x_, A_));
+        }
+        else {
+            // Matrix views
+            auto A_ = create_rowmajor_matrix<TA>(A, n, n, lda);
 
-        tlapack_expr_with_vector(x_, TX, n, x, incx, her(uplo, alpha, x_, A_));
+            tlapack_expr_with_vector(x_, TX, n, x, incx,
+                                     return her(uplo, alpha, x_, A_));
+        }
     }
 
 }  // namespace legacy
diff --git a/include/tlapack/legacy_api/blas/her2.hpp b/include/tlapack/legacy_api/blas/her2.hpp
index 6a3e02c..c87c20b 100644
--- a/include/tlapack/legacy_api/blas/her2.hpp
+++ b/include/tlapack/legacy_api/blas/her2.hpp
@@ -80,6 +80,7 @@ namespace legacy {
               idx_t lda)
     {
         using internal::create_matrix;
+        using internal::create_rowmajor_matrix;
         using scalar_t = scalar_type<TA, TX>;
 
         // check arguments
@@ -94,16 +95,20 @@ namespace legacy {
         // quick return
         if (n == 0 || alpha == scalar_t(0)) return;
 
-        // for row major, swap lower <=> upper
-        if (layout == Layout::RowMajor) {
-            uplo = (uplo == Uplo::Lower ? Uplo::Upper : Uplo::Lower);
-        }
+        if (layout == Layout::ColMajor) {
+            // Matrix views
+            auto A_ = create_matrix<TA>(A, n, n, lda);
 
-        // Matrix views
-        auto A_ = create_matrix<TA>(A, n, n, lda);
+            tlapack_expr_with_2vectors(x_, TX, n, x, incx, y_, TY, n, y, incy,
+                                       return her2(uplo, alpha, x_, y_, A_));
+        }
+        else {
+            // Matrix views
+            auto A_ = create_rowmajor_matrix<TA>(A, n, n, lda);
 
-        tlapack_expr_with_2vectors(x_, TX, n, x, incx, y_, TY, n, y, incy,
-                                   return her2(uplo, alpha, x_, y_, A_));
+            tlapack_expr_with_2vectors(x_, TX, n, x, incx, y_, TY, n, y, incy,
+                                       return her2(uplo, alpha, x_, y_, A_));
+        }
     }
 
 }  // namespace legacy
-- 
2.43.0


From b29c603836b3ab43dbb1feb026be42e8055c8715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:40 +0000
Subject: [PATCH 071/101] fix: row-major legacy gemv with ConjTrans writes to
 the constant vector x

---
 include/tlapack/legacy_api/blas/gemv.hpp | 54 +++++++-----------------
 1 file changed, 15 insertions(+), 39 deletions(-)

diff --git a/include/tlapack/legacy_api/blas/gemv.hpp b/include/tlapack/legacy_api/blas/gemv.hpp
index 1bf5ec8..60c3175 100644
--- a/include/tlapack/legacy_api/blas/gemv.hpp
+++ b/include/tlapack/legacy_api/blas/gemv.hpp
@@ -98,6 +98,7 @@ namespace legacy {
               int_t incy)
     {
         using internal::create_matrix;
+        using internal::create_rowmajor_matrix;
         using scalar_t = scalar_type<TA, TX, TY>;
 
         // check arguments
@@ -116,59 +117,34 @@ namespace legacy {
             ((alpha == scalar_t(0)) && (beta == scalar_t(1))))
             return;
 
-        // Transpose if Row Major
-        bool doConj = false;
-        if (layout == Layout::RowMajor) {
-            // A => A^T; A^T => A; A^H => A & doConj
-            std::swap(m, n);
-            if (trans == Op::NoTrans)
-                trans = Op::Trans;
-            else {
-                if (trans == Op::ConjTrans) doConj = true;
-                trans = Op::NoTrans;
-            }
-        }
-
         // Initialize indexes
         const idx_t lenx = ((trans == Op::NoTrans) ? n : m);
         const idx_t leny = ((trans == Op::NoTrans) ? m : n);
 
-        // Conjugate if A is row-major and initially trans is Op::ConjTrans
-        if (doConj) {
-            TX* x2 = const_cast<TX*>(x);
-            for (idx_t i = 0; i < lenx; ++i)
-                x2[i * abs(incx)] = conj(x2[i * abs(incx)]);
-            for (idx_t i = 0; i < leny; ++i)
-                y[i * abs(incy)] = conj(y[i * abs(incy)]);
-        }
-
-        // Matrix views
-        const auto A_ = create_matrix<TA>((TA*)A, m, n, lda);
-
         if (alpha == scalar_t(0)) {
             tlapack_expr_with_vector(
                 y_, TY, leny, y, incy,
                 if (beta == scalar_t(0)) for (idx_t i = 0; i < leny; ++i)
                     y_[i] = TY(0);
-                else for (idx_t i = 0; i < leny; ++i) y_[i] *=
-                (doConj) ? conj(beta) : beta);
+                else for (idx_t i = 0; i < leny; ++i) y_[i] *= beta);
         }
-        else {
+        else if (layout == Layout::ColMajor) {
+            // Matrix views
+            const auto A_ = create_matrix<TA>((TA*)A, m, n, lda);
+
             tlapack_expr_with_2vectors(
                 x_, TX, lenx, x, incx, y_, TY, leny, y, incy,
-                if (beta == scalar_t(0))
-                    gemv(trans, (doConj) ? conj(alpha) : alpha, A_, x_, y_);
-                else gemv(trans, (doConj) ? conj(alpha) : alpha, A_, x_,
-                          (doConj) ? conj(beta) : beta, y_));
+                if (beta == scalar_t(0)) gemv(trans, alpha, A_, x_, y_);
+                else gemv(trans, alpha, A_, x_, beta, y_));
         }
+        else {
+            // Matrix views
+            const auto A_ = create_rowmajor_matrix<TA>((TA*)A, m, n, lda);
 
-        // Conjugate if A is row-major and initially trans is Op::ConjTrans
-        if (doConj) {
-            TX* x2 = const_cast<TX*>(x);
-            for (idx_t i = 0; i < lenx; ++i)
-                x2[i * abs(incx)] = conj(x2[i * abs(incx)]);
-            for (idx_t i = 0; i < leny; ++i)
-                y[i * abs(incy)] = conj(y[i * abs(incy)]);
+            tlapack_expr_with_2vectors(
+                x_, TX, lenx, x, incx, y_, TY, leny, y, incy,
+                if (beta == scalar_t(0)) gemv(trans, alpha, A_, x_, y_);
+                else gemv(trans, alpha, A_, x_, beta, y_));
         }
     }
 
-- 
2.43.0


From 2005ce90fadafc5a9000e703c1efb28b517741e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:40 +0000
Subject: [PATCH 072/101] fix: legacy rotm does not reject invalid flags

---
 include/tlapack/legacy_api/blas/rotm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/legacy_api/blas/rotm.hpp b/include/tlapack/legacy_api/blas/rotm.hpp
index c69aaec..ad57fb5 100644
--- a/include/tlapack/legacy_api/blas/rotm.hpp
+++ b/include/tlapack/legacy_api/blas/rotm.hpp
@@ -67,7 +67,7 @@ namespace legacy {
         // check arguments
         tlapack_check_false(incx == 0);
         tlapack_check_false(incy == 0);
-        tlapack_check_false(flag < -2 && flag > 1);
+        tlapack_check_false(flag < -2 || flag > 1);
 
         // quick return
         if (n <= 0) return;
-- 
2.43.0


From a3f3a36558bf6a8f13450a7ec8e5d87e448c5814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 073/101] fix: tlapack_cblas.h does not declare the configured
 integer type int64_t

---
 include/tlapack_cblas.h.in | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tlapack_cblas.h.in b/include/tlapack_cblas.h.in
index 015a4f3..3d58db8 100644
--- a/include/tlapack_cblas.h.in
+++ b/include/tlapack_cblas.h.in
@@ -10,6 +10,7 @@
 // -----------------------------------------------------------------------------
 #include <complex.h>
 #include <stddef.h>
+#include <stdint.h>
 
 // clang-format off
 @TLAPACK_CBLAS_DEFINES@
-- 
2.43.0


From dc0ea5e510fd87ab8a10e035d2d0bdb193f31966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 074/101] fix: CBLAS wrappers turn negative sizes into huge
 unsigned ones

---
 src/tlapack_cwrappers.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tlapack_cwrappers.cpp b/src/tlapack_cwrappers.cpp
index 91caefb..f74a270 100644
--- a/src/tlapack_cwrappers.cpp
+++ b/src/tlapack_cwrappers.cpp
@@ -9,9 +9,14 @@
 
 #ifdef BUILD_CBLAS
 
-    #include "tlapack/legacy_api/blas.hpp"
     #include "tlapack_cblas.h"
 
+    // Sizes in CBLAS are signed integers. Use the same type in the legacy API so
+    // that negative sizes are detected.
+    #define TLAPACK_SIZE_T CBLAS_INT
+    #define TLAPACK_INT_T CBLAS_INT
+    #include "tlapack/legacy_api/blas.hpp"
+
     // Mangling
     #ifdef ADD_
         #define BLAS_FUNCTION(fname) cblas_##fname##_
-- 
2.43.0


From afd530b3780a8c435a914de3ce1308c6370167c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:26 +0000
Subject: [PATCH 075/101] fix: legacy unm2r passes the raw pointer instead of
 the matrix and reads tau as real numbers

---
 include/tlapack/legacy_api/lapack/unm2r.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/legacy_api/lapack/unm2r.hpp b/include/tlapack/legacy_api/lapack/unm2r.hpp
index b7e6eca..5aa5b12 100644
--- a/include/tlapack/legacy_api/lapack/unm2r.hpp
+++ b/include/tlapack/legacy_api/lapack/unm2r.hpp
@@ -36,7 +36,7 @@ namespace legacy {
      *                 If side='L', A is k-by-m;
      *                 if side='R', A is k-by-n.
      * @param[in] lda The column length of the matrix A.  ldA>=k.
-     * @param[in] tau Real vector of length k containing the scalar factors of
+     * @param[in] tau Vector of length k containing the scalar factors of
      * the elementary reflectors.
      * @param[in,out] C m-by-n matrix.
      *     On exit, C is replaced by one of the following:
@@ -56,7 +56,7 @@ namespace legacy {
               idx_t k,
               TA* A,
               idx_t lda,
-              const real_type<TA, TC>* tau,
+              const TA* tau,
               TC* C,
               idx_t ldc)
     {
@@ -82,7 +82,7 @@ namespace legacy {
         const auto tau_ = create_vector((TA*)tau, k);
         auto C_ = create_matrix<TC>(C, m, n, ldc);
 
-        return unm2r(side, trans, A, tau_, C_);
+        return unm2r(side, trans, A_, tau_, C_);
     }
 
 }  // namespace legacy
-- 
2.43.0


From 5eda6f7c04cd1894b3acec2007ebe10a8f44830c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:26 +0000
Subject: [PATCH 076/101] fix: legacy ung2r ignores the number of reflectors k

---
 include/tlapack/legacy_api/lapack/ung2r.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/legacy_api/lapack/ung2r.hpp b/include/tlapack/legacy_api/lapack/ung2r.hpp
index 64d79a4..35dcb11 100644
--- a/include/tlapack/legacy_api/lapack/ung2r.hpp
+++ b/include/tlapack/legacy_api/lapack/ung2r.hpp
@@ -35,7 +35,7 @@ namespace legacy {
      * GEQRF in the first k columns of its array argument A. On exit, the m-by-n
      * matrix $Q  = H_1 H_2 ... H_k$.
      * @param[in] lda The leading dimension of A. lda >= max(1,m).
-     * @param[in] tau Real vector of length min(m,n).
+     * @param[in] tau Real vector of length k.
      *      The scalar factors of the elementary reflectors.
      *
      * @ingroup legacy_lapack
@@ -57,7 +57,7 @@ namespace legacy {
 
         // Matrix views
         auto A_ = create_matrix<TA>(A, m, n, lda);
-        auto tau_ = create_vector((TT*)tau, min(m, n));
+        auto tau_ = create_vector((TT*)tau, k);
 
         return ung2r(A_, tau_);
     }
-- 
2.43.0


From c0f555d241e34a6913cc55c55ddb64a03ff5d50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:26 +0000
Subject: [PATCH 077/101] fix: legacy larfg with n = 0 creates a vector of huge
 length

---
 include/tlapack/legacy_api/lapack/larfg.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/tlapack/legacy_api/lapack/larfg.hpp b/include/tlapack/legacy_api/lapack/larfg.hpp
index 71738ed..9006e01 100644
--- a/include/tlapack/legacy_api/lapack/larfg.hpp
+++ b/include/tlapack/legacy_api/lapack/larfg.hpp
@@ -20,6 +20,12 @@ namespace legacy {
     template <typename T>
     void larfg(idx_t n, T& alpha, T* x, int_t incx, T& tau)
     {
+        // quick return
+        if (n <= 0) {
+            tau = T(0);
+            return;
+        }
+
         tlapack_expr_with_vector(
             x_, T, n - 1, x, incx,
             return larfg(COLUMNWISE_STORAGE, alpha, x_, tau));
-- 
2.43.0


From 1f3eb07b6372b38ae493decaf0d125f0a5a4b7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:26 +0000
Subject: [PATCH 078/101] fix: legacy lascl ignores the leading dimension of
 band matrices

---
 include/tlapack/legacy_api/lapack/lascl.hpp | 28 ++++++++++++---------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/tlapack/legacy_api/lapack/lascl.hpp b/include/tlapack/legacy_api/lapack/lascl.hpp
index d7cbf0e..30089cd 100644
--- a/include/tlapack/legacy_api/lapack/lascl.hpp
+++ b/include/tlapack/legacy_api/lapack/lascl.hpp
@@ -68,7 +68,6 @@ namespace legacy {
               T* A,
               idx_t lda)
     {
-        using internal::create_banded_matrix;
         using internal::create_matrix;
 
         // check arguments
@@ -103,17 +102,22 @@ namespace legacy {
         tlapack_check_false((matrixtype == MatrixType::Band) &&
                             (lda < 2 * kl + ku + 1));
 
-        if (matrixtype == MatrixType::LowerBand) {
-            auto A_ = create_banded_matrix<T>(A, m, n, kl, 0);
-            return lascl(BandAccess{size_t(kl), 0}, b, a, A_);
-        }
-        else if (matrixtype == MatrixType::UpperBand) {
-            auto A_ = create_banded_matrix<T>(A, m, n, 0, ku);
-            return lascl(BandAccess{0, size_t(ku)}, b, a, A_);
-        }
-        else if (matrixtype == MatrixType::Band) {
-            auto A_ = create_banded_matrix<T>(A, m, n, kl, ku);
-            return lascl(BandAccess{size_t(kl), size_t(ku)}, b, a, A_);
+        if (matrixtype == MatrixType::LowerBand ||
+            matrixtype == MatrixType::UpperBand ||
+            matrixtype == MatrixType::Band) {
+            // A(i,j) is stored in A[ offset + u + i - j + j*lda ]
+            const idx_t l = (matrixtype == MatrixType::UpperBand) ? 0 : kl;
+            const idx_t u = (matrixtype == MatrixType::LowerBand) ? 0 : ku;
+            const idx_t offset = (matrixtype == MatrixType::Band) ? kl : 0;
+
+            for (idx_t j = 0; j < n && j < m + u; ++j) {
+                const idx_t i0 = (j > u) ? j - u : 0;
+                const idx_t i1 = min(m, j + l + 1);
+                auto Aj = create_matrix<T>(A + (offset + u + i0 - j) + j * lda,
+                                           i1 - i0, 1, lda);
+                lascl(GENERAL, b, a, Aj);
+            }
+            return 0;
         }
         else {
             auto A_ = create_matrix<T>(A, m, n, lda);
-- 
2.43.0


From 4dc624f8876dc6084f772ec55cf09b5fe50b4c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:39 +0000
Subject: [PATCH 079/101] fix: workspace queries of the Q multiplication
 routines without reflectors

The unm2r, unm2l, unml2, unmr2 and unmq_level2 workspace queries accessed the
first reflector even if there was none.
---
 include/tlapack/lapack/unm2l.hpp       | 3 +++
 include/tlapack/lapack/unm2r.hpp       | 3 +++
 include/tlapack/lapack/unml2.hpp       | 3 +++
 include/tlapack/lapack/unmq_level2.hpp | 3 +++
 include/tlapack/lapack/unmr2.hpp       | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/include/tlapack/lapack/unm2l.hpp b/include/tlapack/lapack/unm2l.hpp
index d5979c4..afa336f 100644
--- a/include/tlapack/lapack/unm2l.hpp
+++ b/include/tlapack/lapack/unm2l.hpp
@@ -57,6 +57,9 @@ constexpr WorkInfo unm2l_worksize(side_t side,
     using idx_t = size_type<matrixA_t>;
     using range = pair<idx_t, idx_t>;
 
+    // Q is the identity if there are no reflectors
+    if (size(tau) == 0) return WorkInfo(0);
+
     // constants
     const idx_t m = nrows(C);
     const idx_t n = ncols(C);
diff --git a/include/tlapack/lapack/unm2r.hpp b/include/tlapack/lapack/unm2r.hpp
index 7c96fd4..a827265 100644
--- a/include/tlapack/lapack/unm2r.hpp
+++ b/include/tlapack/lapack/unm2r.hpp
@@ -57,6 +57,9 @@ constexpr WorkInfo unm2r_worksize(side_t side,
     using idx_t = size_type<matrixA_t>;
     using range = pair<idx_t, idx_t>;
 
+    // Q is the identity if there are no reflectors
+    if (size(tau) == 0) return WorkInfo(0);
+
     // constants
     const idx_t m = nrows(C);
     const idx_t n = ncols(C);
diff --git a/include/tlapack/lapack/unml2.hpp b/include/tlapack/lapack/unml2.hpp
index e7238c7..331ce3e 100644
--- a/include/tlapack/lapack/unml2.hpp
+++ b/include/tlapack/lapack/unml2.hpp
@@ -57,6 +57,9 @@ constexpr WorkInfo unml2_worksize(side_t side,
     using idx_t = size_type<matrixA_t>;
     using range = pair<idx_t, idx_t>;
 
+    // Q is the identity if there are no reflectors
+    if (size(tau) == 0) return WorkInfo(0);
+
     // constants
     const idx_t m = nrows(C);
     const idx_t n = ncols(C);
diff --git a/include/tlapack/lapack/unmq_level2.hpp b/include/tlapack/lapack/unmq_level2.hpp
index ec34350..5ab7667 100644
--- a/include/tlapack/lapack/unmq_level2.hpp
+++ b/include/tlapack/lapack/unmq_level2.hpp
@@ -77,6 +77,9 @@ constexpr WorkInfo unmq_level2_worksize(side_t side,
     using idx_t = size_type<matrixC_t>;
     using range = pair<idx_t, idx_t>;
 
+    // Q is the identity if there are no reflectors
+    if (size(tau) == 0) return WorkInfo(0);
+
     // Constants
     const idx_t m = nrows(C);
     const idx_t n = ncols(C);
diff --git a/include/tlapack/lapack/unmr2.hpp b/include/tlapack/lapack/unmr2.hpp
index d1818af..181c669 100644
--- a/include/tlapack/lapack/unmr2.hpp
+++ b/include/tlapack/lapack/unmr2.hpp
@@ -57,6 +57,9 @@ constexpr WorkInfo unmr2_worksize(side_t side,
     using idx_t = size_type<matrixA_t>;
     using range = pair<idx_t, idx_t>;
 
+    // Q is the identity if there are no reflectors
+    if (size(tau) == 0) return WorkInfo(0);
+
     // constants
     const idx_t m = nrows(C);
     const idx_t n = ncols(C);
-- 
2.43.0


From a826f83b3369a30d508ea9d6faf17f6cdf750406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:23 +0000
Subject: [PATCH 080/101] fix: unghr writes outside the matrix if it is empty
 or ilo = n

The loop over the first ilo + 1 columns was not limited to the columns of the
matrix although the documentation allows n = 0 and ilo = ihi = n.
---
 include/tlapack/lapack/unghr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/unghr.hpp b/include/tlapack/lapack/unghr.hpp
index 29a4d91..147faa9 100644
--- a/include/tlapack/lapack/unghr.hpp
+++ b/include/tlapack/lapack/unghr.hpp
@@ -105,7 +105,7 @@ int unghr_work(size_type<matrix_t> ilo,
             A(i, j) = zero;
         }
     }
-    for (idx_t j = 0; j < ilo + 1; ++j) {
+    for (idx_t j = 0; j < ilo + 1 && j < n; ++j) {
         for (idx_t i = 0; i < n; ++i) {
             A(i, j) = zero;
         }
-- 
2.43.0


From 5601cd491578c4f1c89d5d6d4e4eb7b6e42c8e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:28 +0000
Subject: [PATCH 081/101] fix: rscl is inaccurate for subnormal complex alpha

The inverse of the real and imaginary parts of 1/alpha were computed in the
subnormal range, where they have only a few significant bits.
---
 include/tlapack/lapack/rscl.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/rscl.hpp b/include/tlapack/lapack/rscl.hpp
index 627921c..9bd84ac 100644
--- a/include/tlapack/lapack/rscl.hpp
+++ b/include/tlapack/lapack/rscl.hpp
@@ -119,8 +119,14 @@ void rscl(const alpha_t& alpha, vector_t& x)
         real_t b = alphaI + alphaR * (alphaR / alphaI);
 
         if (abs(a) < safeMin || abs(b) < safeMin) {
-            // This means that both alphaR and alphaI are very small.
-            scal(alpha_t(safeMin / a, -safeMin / b), x);
+            // This means that both alphaR and alphaI are very small. Recompute
+            // a and b from scaled values, because a subnormal a or b would not
+            // be accurate.
+            const real_t sR = safeMax * alphaR;
+            const real_t sI = safeMax * alphaI;
+            a = sR + sI * (sI / sR);
+            b = sI + sR * (sR / sI);
+            scal(alpha_t(one / a, -one / b), x);
             scal(safeMax, x);
         }
         else if (abs(a) > safeMax || abs(b) > safeMax) {
-- 
2.43.0


From b476f8dc39a123dddec87a31d14654690c2fedf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:40 +0000
Subject: [PATCH 082/101] fix: hasnan and hasinf read past the last row of an
 upper Hessenberg matrix

---
 include/tlapack/lapack/hasinf.hpp | 2 +-
 include/tlapack/lapack/hasnan.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/hasinf.hpp b/include/tlapack/lapack/hasinf.hpp
index e6172f3..feea0a2 100644
--- a/include/tlapack/lapack/hasinf.hpp
+++ b/include/tlapack/lapack/hasinf.hpp
@@ -54,7 +54,7 @@ bool hasinf(uplo_t uplo, const matrix_t& A)
 
     if (uplo == Uplo::UpperHessenberg) {
         for (idx_t j = 0; j < n; ++j)
-            for (idx_t i = 0; i < ((j < m) ? j + 2 : m); ++i)
+            for (idx_t i = 0; i < ((j + 1 < m) ? j + 2 : m); ++i)
                 if (isinf(A(i, j))) return true;
         return false;
     }
diff --git a/include/tlapack/lapack/hasnan.hpp b/include/tlapack/lapack/hasnan.hpp
index 18c8a84..688a438 100644
--- a/include/tlapack/lapack/hasnan.hpp
+++ b/include/tlapack/lapack/hasnan.hpp
@@ -54,7 +54,7 @@ bool hasnan(uplo_t uplo, const matrix_t& A)
 
     if (uplo == Uplo::UpperHessenberg) {
         for (idx_t j = 0; j < n; ++j)
-            for (idx_t i = 0; i < ((j < m) ? j + 2 : m); ++i)
+            for (idx_t i = 0; i < ((j + 1 < m) ? j + 2 : m); ++i)
                 if (isnan(A(i, j))) return true;
         return false;
     }
-- 
2.43.0


From 1995b6988706d18d14b00dd4587e1d37862f9648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:40 +0000
Subject: [PATCH 083/101] fix: lapy2 and lapy3 returned NaN for infinite
 arguments

---
 include/tlapack/lapack/lapy2.hpp | 4 +++-
 include/tlapack/lapack/lapy3.hpp | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/lapack/lapy2.hpp b/include/tlapack/lapack/lapy2.hpp
index 5263cff..5abbfdd 100644
--- a/include/tlapack/lapack/lapy2.hpp
+++ b/include/tlapack/lapack/lapy2.hpp
@@ -52,7 +52,9 @@ real_type<TX, TY> lapy2(const TX& x, const TY& y)
         z = xabs;
     }
 
-    return (z == zero) ? w : w * sqrt(one + (z / w) * (z / w));
+    // If w is infinite, z / w may be invalid. Adding z keeps a NaN.
+    return (z == zero || isinf(w)) ? w + z
+                                   : w * sqrt(one + (z / w) * (z / w));
 }
 
 }  // namespace tlapack
diff --git a/include/tlapack/lapack/lapy3.hpp b/include/tlapack/lapack/lapy3.hpp
index 81cac24..96a495e 100644
--- a/include/tlapack/lapack/lapy3.hpp
+++ b/include/tlapack/lapack/lapy3.hpp
@@ -47,8 +47,8 @@ real_type<TX, TY, TZ> lapy3(const TX& x, const TY& y, const TZ& z)
     const TZ zabs = abs(z);
     const real_t w = max(xabs, max(yabs, zabs));
 
-    return (w == zero)
-               // W can be zero for max(0,nan,0)
+    return (w == zero || isinf(w))
+               // W can be zero for max(0,nan,0), or infinite
                // adding all three entries together will make sure
                // NaN will not disappear.
                ? xabs + yabs + zabs
-- 
2.43.0


From a6c12272a1915cbe9b581db39b329d21139199fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:40 +0000
Subject: [PATCH 084/101] fix: larfg dropped a NaN in x and returned the
 identity

---
 include/tlapack/lapack/larfg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/larfg.hpp b/include/tlapack/lapack/larfg.hpp
index abb524c..4b72813 100644
--- a/include/tlapack/lapack/larfg.hpp
+++ b/include/tlapack/lapack/larfg.hpp
@@ -95,7 +95,7 @@ void larfg(storage_t storeMode,
     tau = zero;
     real_t xnorm = nrm2(x);
 
-    if (xnorm > zero || (imag(alpha) != zero)) {
+    if (xnorm != zero || (imag(alpha) != zero)) {
         // First estimate of beta
         real_t temp = (is_real<T>) ? lapy2(real(alpha), xnorm)
                                    : lapy3(real(alpha), imag(alpha), xnorm);
-- 
2.43.0


From 87b55a42e8e6064a2e54013f7342f7903a8042f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:40 +0000
Subject: [PATCH 085/101] fix: lae2 and laev2 dropped a NaN on the diagonal

---
 include/tlapack/lapack/lae2.hpp  | 5 +++++
 include/tlapack/lapack/laev2.hpp | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/include/tlapack/lapack/lae2.hpp b/include/tlapack/lapack/lae2.hpp
index c5b4d00..f6bf2bb 100644
--- a/include/tlapack/lapack/lae2.hpp
+++ b/include/tlapack/lapack/lae2.hpp
@@ -96,6 +96,11 @@ void lae2(T a, T b, T c, T& s1, T& s2)
         // next line needs to be executed in higher precision.
         s2 = (acmx / s1) * acmn - (b / s1) * b;
     }
+    else if (isnan(df)) {
+        // a or c is NaN
+        s1 = df;
+        s2 = df;
+    }
     else {
         // Includes case s1 = s2 = 0
         s1 = half * rt;
diff --git a/include/tlapack/lapack/laev2.hpp b/include/tlapack/lapack/laev2.hpp
index c20c795..0d3a112 100644
--- a/include/tlapack/lapack/laev2.hpp
+++ b/include/tlapack/lapack/laev2.hpp
@@ -109,6 +109,12 @@ void laev2(T a, T b, T c, T& s1, T& s2, T& cs, T& sn)
         // next line needs to be executed in higher precision.
         s2 = (acmx / s1) * acmn - (b / s1) * b;
     }
+    else if (isnan(df)) {
+        // a or c is NaN
+        s1 = df;
+        s2 = df;
+        sign1 = 1;
+    }
     else {
         // Includes case s1 = s2 = 0
         s1 = half * rt;
-- 
2.43.0


From 03571640c054fe5c6b740bcd3816be6228545238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:40 +0000
Subject: [PATCH 086/101] fix: singularvalues22 dropped NaN arguments

---
 include/tlapack/lapack/singularvalues22.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/tlapack/lapack/singularvalues22.hpp b/include/tlapack/lapack/singularvalues22.hpp
index 215cbe4..39f0a48 100644
--- a/include/tlapack/lapack/singularvalues22.hpp
+++ b/include/tlapack/lapack/singularvalues22.hpp
@@ -43,6 +43,13 @@ void singularvalues22(const T& f, const T& g, const T& h, T& ssmin, T& ssmax)
     const T one(1);
     const T two(2);
 
+    // The comparisons below would lose a NaN
+    if (isnan(f) || isnan(g) || isnan(h)) {
+        ssmin = f + g + h;
+        ssmax = ssmin;
+        return;
+    }
+
     T fa = abs(f);
     T ga = abs(g);
     T ha = abs(h);
-- 
2.43.0


From cfc026fc36b3551cf170f11fa1cfb6282a2af5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:40 +0000
Subject: [PATCH 087/101] fix: lahqz replaced a NaN on the diagonal of B by
 zero

---
 include/tlapack/lapack/lahqz.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/lahqz.hpp b/include/tlapack/lapack/lahqz.hpp
index 69b21a3..43d2863 100644
--- a/include/tlapack/lapack/lahqz.hpp
+++ b/include/tlapack/lapack/lahqz.hpp
@@ -321,7 +321,7 @@ int lahqz(bool want_s,
             }
             else {
                 real_t absB = abs(B(istart, istart));
-                if (absB > small_num) {
+                if (!(absB <= small_num)) {  // also if absB is NaN
                     if (imag(B(istart, istart)) != zero or
                         real(B(istart, istart)) < zero) {
                         TA scal = conj(B(istart, istart) / absB);
-- 
2.43.0


From ac328d994add7d87929cd4e011e82ce433ff54c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:34 +0000
Subject: [PATCH 088/101] fix: gemmtr accepted a C with only one matching
 dimension

The check used && and so let an n-by-p or p-by-n C through, which was then
accessed out of bounds.
---
 include/tlapack/lapack/gemmtr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/gemmtr.hpp b/include/tlapack/lapack/gemmtr.hpp
index 14f2fb8..6e513a9 100644
--- a/include/tlapack/lapack/gemmtr.hpp
+++ b/include/tlapack/lapack/gemmtr.hpp
@@ -82,7 +82,7 @@ void gemmtr(Uplo uplo,
                         transA != Op::ConjTrans);
     tlapack_check_false(transB != Op::NoTrans && transB != Op::Trans &&
                         transB != Op::ConjTrans);
-    tlapack_check_false((idx_t)ncols(C) != n && (idx_t)nrows(C) != n);
+    tlapack_check_false((idx_t)ncols(C) != n || (idx_t)nrows(C) != n);
     tlapack_check_false(
         (idx_t)((transA == Op::NoTrans) ? ncols(A) : nrows(A)) != k);
     tlapack_check_false(
-- 
2.43.0


From 3fe85a7d9318ed3a03b288038b4035d6c92eefc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:34 +0000
Subject: [PATCH 089/101] fix: larfb ignored part of the shape of V in its
 argument check

The conditional operator binds more weakly than &&, so a V with the wrong number
of reflectors was only compared with the other dimension of C.
---
 include/tlapack/lapack/larfb.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/larfb.hpp b/include/tlapack/lapack/larfb.hpp
index 35f9a11..840385a 100644
--- a/include/tlapack/lapack/larfb.hpp
+++ b/include/tlapack/lapack/larfb.hpp
@@ -140,10 +140,10 @@ int larfb_work(side_t side,
                         storeMode != StoreV::Rowwise);
     tlapack_check(
         (storeMode == StoreV::Columnwise)
-            ? ((ncols(V) == k) && (side == Side::Left) ? (nrows(V) == m)
-                                                       : (nrows(V) == n))
-            : ((nrows(V) == k) && (side == Side::Left) ? (ncols(V) == m)
-                                                       : (ncols(V) == n)));
+            ? ((ncols(V) == k) &&
+               (nrows(V) == ((side == Side::Left) ? m : n)))
+            : ((nrows(V) == k) &&
+               (ncols(V) == ((side == Side::Left) ? m : n))));
     tlapack_check(nrows(Tmatrix) == ncols(Tmatrix));
 
     // Quick return
-- 
2.43.0


From 01324cea5bcc39f5f006ffe209d5886facf7d667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:34 +0000
Subject: [PATCH 090/101] fix: rot_sequence rejected every call with an empty A

The number of rotations wrapped around to the largest index when the rotated
dimension was zero.
---
 include/tlapack/lapack/rot_sequence.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/rot_sequence.hpp b/include/tlapack/lapack/rot_sequence.hpp
index f370bb9..7044b1b 100644
--- a/include/tlapack/lapack/rot_sequence.hpp
+++ b/include/tlapack/lapack/rot_sequence.hpp
@@ -87,7 +87,8 @@ int rot_sequence(
     // constants
     const idx_t m = nrows(A);
     const idx_t n = ncols(A);
-    const idx_t k = (side == Side::Left) ? m - 1 : n - 1;
+    const idx_t k = (side == Side::Left) ? ((m > 0) ? m - 1 : 0)
+                                         : ((n > 0) ? n - 1 : 0);
 
     // Check dimensions
     tlapack_check((idx_t)size(c) == k);
-- 
2.43.0


From 433857c77dd57462daac7f36c2d0ad4bd26686a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:34 +0000
Subject: [PATCH 091/101] fix: multishift_qr touched w and A before checking
 its arguments

With a single active row the driver wrote w[ilo] = A(ilo, ilo) before any check,
out of bounds for a w that is too short, and it accepted any shapes when the
active range was empty.
---
 include/tlapack/lapack/multishift_qr.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/tlapack/lapack/multishift_qr.hpp b/include/tlapack/lapack/multishift_qr.hpp
index eda830b..39b913e 100644
--- a/include/tlapack/lapack/multishift_qr.hpp
+++ b/include/tlapack/lapack/multishift_qr.hpp
@@ -476,6 +476,13 @@ int multishift_qr(bool want_t,
     // if n < nmin, the matrix will be passed to lahqr
     const idx_t nmin = opts.nmin;
 
+    // check arguments
+    tlapack_check_false(n != nrows(A));
+    tlapack_check_false((idx_t)size(w) != n);
+    if (want_z) {
+        tlapack_check_false((n != ncols(Z)) or (n != nrows(Z)));
+    }
+
     // quick return
     if (nh <= 0) return 0;
     if (nh == 1) w[ilo] = A(ilo, ilo);
-- 
2.43.0


From a95c57e219f0a446ae7b32966d741736ae72334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:36 +0000
Subject: [PATCH 092/101] fix: gehrd queried its workspace before checking its
 arguments

With ihi > n the query built slices that do not exist, in functions that are
noexcept, so that an invalid call terminated the program.
---
 include/tlapack/lapack/gehrd.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/tlapack/lapack/gehrd.hpp b/include/tlapack/lapack/gehrd.hpp
index c3c29bc..73033f1 100644
--- a/include/tlapack/lapack/gehrd.hpp
+++ b/include/tlapack/lapack/gehrd.hpp
@@ -238,6 +238,12 @@ int gehrd(size_type<matrix_t> ilo,
     // quick return
     if (n <= 0) return 0;
 
+    // check arguments
+    tlapack_check_false((ilo < 0) or (ilo >= n));
+    tlapack_check_false((ihi < 0) or (ihi > n));
+    tlapack_check_false(ncols(A) != nrows(A));
+    tlapack_check_false((idx_t)size(tau) < n - 1);
+
     // Allocates workspace
     WorkInfo workinfo = gehrd_worksize<T>(ilo, ihi, A, tau, opts);
     std::vector<T> work_;
-- 
2.43.0


From 6e008ec0fe74311ce92fba825044d248ba0e7e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:41 +0000
Subject: [PATCH 093/101] fix: gebrd left the last scalar factor of one side
 uninitialized

When the last row or column is reached there is no reflector on the other side.
gebd2 sets its scalar factor to zero, but labrd did not write it at all.
---
 include/tlapack/lapack/labrd.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tlapack/lapack/labrd.hpp b/include/tlapack/lapack/labrd.hpp
index 457eab4..1debf02 100644
--- a/include/tlapack/lapack/labrd.hpp
+++ b/include/tlapack/lapack/labrd.hpp
@@ -188,6 +188,9 @@ int labrd(A_t& A, vector_t& tauq, vector_t& taup, X_t& X, matrixY_t& Y)
                 A(i, i) = d;
                 A(i, i + 1) = e;
             }
+            else {
+                taup[i] = zero;
+            }
         }
     }
     else {
@@ -307,6 +310,7 @@ int labrd(A_t& A, vector_t& tauq, vector_t& taup, X_t& X, matrixY_t& Y)
             }
             else {
                 conjugate(w);
+                tauq[i] = zero;
             }
         }
     }
-- 
2.43.0


From 3e4cbd0a41c0cd38a8e313e20e32d6baa86e51da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:54 +0000
Subject: [PATCH 094/101] fix: laed6 spoiled its bracket when products of poles
 underflow

---
 include/tlapack/lapack/laed6.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/lapack/laed6.hpp b/include/tlapack/lapack/laed6.hpp
index 9131fcf..10ad19a 100644
--- a/include/tlapack/lapack/laed6.hpp
+++ b/include/tlapack/lapack/laed6.hpp
@@ -144,9 +144,9 @@ int laed6(idx_t kniter,
             tau = real_t(0.0);
         }
         else {
-            temp = finit + tau * z[0] / (d[0] * (d[0] - tau)) +
-                   tau * z[1] / (d[1] * (d[1] - tau)) +
-                   tau * z[2] / (d[2] * (d[2] - tau));
+            temp = finit + (tau / d[0]) * (z[0] / (d[0] - tau)) +
+                   (tau / d[1]) * (z[1] / (d[1] - tau)) +
+                   (tau / d[2]) * (z[2] / (d[2] - tau));
 
             if (temp <= 0.0) {
                 lbd = tau;
-- 
2.43.0


From a141fab975a0cbed5544833974e6e87a7ab25ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:54 +0000
Subject: [PATCH 095/101] fix: generalized AED left workspace data in the
 window of B after a recursive multishift_qz

---
 .../tlapack/lapack/aggressive_early_deflation_generalized.hpp  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tlapack/lapack/aggressive_early_deflation_generalized.hpp b/include/tlapack/lapack/aggressive_early_deflation_generalized.hpp
index 43de040..4ed3389 100644
--- a/include/tlapack/lapack/aggressive_early_deflation_generalized.hpp
+++ b/include/tlapack/lapack/aggressive_early_deflation_generalized.hpp
@@ -210,6 +210,9 @@ void aggressive_early_deflation_generalized(bool want_s,
         for (idx_t j = 0; j < jw; ++j)
             for (idx_t i = j + 2; i < jw; ++i)
                 Aw(i, j) = zero;
+        for (idx_t j = 0; j < jw; ++j)
+            for (idx_t i = j + 1; i < jw; ++i)
+                Bw(i, j) = zero;
     }
 
     // TODO: use multishift_qz recursively
-- 
2.43.0


From 200bbd36589beb8f2bfdcd0e9cd67c8961e113b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:25 +0000
Subject: [PATCH 096/101] fix: apply alpha only once in the tiled StarPU trsm

---
 include/tlapack/starpu/trsm.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/tlapack/starpu/trsm.hpp b/include/tlapack/starpu/trsm.hpp
index 64687c1..e584d90 100644
--- a/include/tlapack/starpu/trsm.hpp
+++ b/include/tlapack/starpu/trsm.hpp
@@ -64,7 +64,7 @@ void trsm(Side side,
                             B.tile(nx - ix - 1, iy));
                     }
                     auto C = B.get_tiles(0, 0, nx - ix - 1, ny);
-                    gemm(trans, NO_TRANS, -alpha,
+                    gemm(trans, NO_TRANS, -one,
                          A.get_const_tiles(0, nx - ix - 1, nx - ix - 1, 1),
                          B.get_const_tiles(nx - ix - 1, 0, 1, ny),
                          ((ix == 0) ? alpha : one), C);
@@ -78,7 +78,7 @@ void trsm(Side side,
                             A_.tile(ix, ix), B.tile(ix, iy));
                     }
                     auto C = B.get_tiles(ix + 1, 0, nx - ix - 1, ny);
-                    gemm(trans, NO_TRANS, -alpha,
+                    gemm(trans, NO_TRANS, -one,
                          A.get_const_tiles(ix + 1, ix, nx - ix - 1, 1),
                          B.get_const_tiles(ix, 0, 1, ny),
                          ((ix == 0) ? alpha : one), C);
@@ -99,7 +99,7 @@ void trsm(Side side,
                         //     ((ix == 0) ? alpha : one)), Aii, B_);
                     }
                     auto C = B.get_tiles(ix + 1, 0, nx - ix - 1, ny);
-                    gemm(trans, NO_TRANS, -alpha,
+                    gemm(trans, NO_TRANS, -one,
                          A.get_const_tiles(ix, ix + 1, 1, nx - ix - 1),
                          B.get_const_tiles(ix, 0, 1, ny),
                          ((ix == 0) ? alpha : one), C);
@@ -114,7 +114,7 @@ void trsm(Side side,
                             B.tile(nx - ix - 1, iy));
                     }
                     auto C = B.get_tiles(0, 0, nx - ix - 1, ny);
-                    gemm(trans, NO_TRANS, -alpha,
+                    gemm(trans, NO_TRANS, -one,
                          A.get_const_tiles(nx - ix - 1, 0, 1, nx - ix - 1),
                          B.get_const_tiles(nx - ix - 1, 0, 1, ny),
                          ((ix == 0) ? alpha : one), C);
@@ -132,7 +132,7 @@ void trsm(Side side,
                             A_.tile(iy, iy), B.tile(ix, iy));
                     }
                     auto C = B.get_tiles(0, iy + 1, nx, ny - iy - 1);
-                    gemm(NO_TRANS, trans, -alpha,
+                    gemm(NO_TRANS, trans, -one,
                          B.get_const_tiles(0, iy, nx, 1),
                          A.get_const_tiles(iy, iy + 1, 1, ny - iy - 1),
                          ((iy == 0) ? alpha : one), C);
@@ -147,7 +147,7 @@ void trsm(Side side,
                             B.tile(ix, ny - iy - 1));
                     }
                     auto C = B.get_tiles(0, 0, nx, ny - iy - 1);
-                    gemm(NO_TRANS, trans, -alpha,
+                    gemm(NO_TRANS, trans, -one,
                          B.get_const_tiles(0, ny - iy - 1, nx, 1),
                          A.get_const_tiles(ny - iy - 1, 0, 1, ny - iy - 1),
                          ((iy == 0) ? alpha : one), C);
@@ -164,7 +164,7 @@ void trsm(Side side,
                             B.tile(ix, ny - iy - 1));
                     }
                     auto C = B.get_tiles(0, 0, nx, ny - iy - 1);
-                    gemm(NO_TRANS, trans, -alpha,
+                    gemm(NO_TRANS, trans, -one,
                          B.get_const_tiles(0, ny - iy - 1, nx, 1),
                          A.get_const_tiles(0, ny - iy - 1, ny - iy - 1, 1),
                          ((iy == 0) ? alpha : one), C);
@@ -178,7 +178,7 @@ void trsm(Side side,
                             A_.tile(iy, iy), B.tile(ix, iy));
                     }
                     auto C = B.get_tiles(0, iy + 1, nx, ny - iy - 1);
-                    gemm(NO_TRANS, trans, -alpha,
+                    gemm(NO_TRANS, trans, -one,
                          B.get_const_tiles(0, iy, nx, 1),
                          A.get_const_tiles(iy + 1, iy, ny - iy - 1, 1),
                          ((iy == 0) ? alpha : one), C);
-- 
2.43.0


From 7d6f1d49e9f9db2ecb7563a180407142b625cc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:29 +0000
Subject: [PATCH 097/101] fix: handle a StrongZero beta in the StarPU gemm and
 herk when k is zero

---
 include/tlapack/starpu/gemm.hpp | 2 +-
 include/tlapack/starpu/herk.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/starpu/gemm.hpp b/include/tlapack/starpu/gemm.hpp
index 24baa5e..aaa6bed 100644
--- a/include/tlapack/starpu/gemm.hpp
+++ b/include/tlapack/starpu/gemm.hpp
@@ -40,7 +40,7 @@ void gemm(Op transA,
 
     // quick return
     if (m == 0 || n == 0) return;
-    if (k == 0 && beta == one) return;
+    if (!is_same_v<beta_t, StrongZero> && k == 0 && beta == one) return;
 
     // check arguments
     tlapack_check(transA == Op::NoTrans || transA == Op::Trans ||
diff --git a/include/tlapack/starpu/herk.hpp b/include/tlapack/starpu/herk.hpp
index ad903bc..903c055 100644
--- a/include/tlapack/starpu/herk.hpp
+++ b/include/tlapack/starpu/herk.hpp
@@ -38,7 +38,7 @@ void herk(Uplo uplo,
 
     // quick return
     if (n == 0) return;
-    if (k == 0 && beta == one) return;
+    if (!is_same_v<beta_t, StrongZero> && k == 0 && beta == one) return;
 
     // check arguments
     tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper &&
-- 
2.43.0


From 641f5d69b0e16e6b17adb2e5a772ea26332cb22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:54 +0000
Subject: [PATCH 098/101] fix: keep the unreferenced triangle when a StarPU
 rank-k task runs with a StrongZero beta

---
 include/tlapack/starpu/codelets.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/starpu/codelets.hpp b/include/tlapack/starpu/codelets.hpp
index 05646c1..2746f44 100644
--- a/include/tlapack/starpu/codelets.hpp
+++ b/include/tlapack/starpu/codelets.hpp
@@ -96,7 +96,7 @@ namespace starpu {
             cl.cpu_funcs[0] = func::syrk<TA, TC, alpha_t, beta_t>;
             cl.nbuffers = 2;
             cl.modes[0] = STARPU_R;
-            cl.modes[1] = is_same_v<beta_t, StrongZero> ? STARPU_W : STARPU_RW;
+            cl.modes[1] = STARPU_RW;  // only one triangle is written
             cl.name = "tlapack::starpu::syrk";
 
             // The following lines are needed to make the codelet const
@@ -121,7 +121,7 @@ namespace starpu {
             }
             cl.nbuffers = 2;
             cl.modes[0] = STARPU_R;
-            cl.modes[1] = is_same_v<beta_t, StrongZero> ? STARPU_W : STARPU_RW;
+            cl.modes[1] = STARPU_RW;  // only one triangle is written
             cl.name = "tlapack::starpu::herk";
 
             // The following lines are needed to make the codelet const
@@ -142,7 +142,7 @@ namespace starpu {
             cl.nbuffers = 3;
             cl.modes[0] = STARPU_R;
             cl.modes[1] = STARPU_R;
-            cl.modes[2] = is_same_v<beta_t, StrongZero> ? STARPU_W : STARPU_RW;
+            cl.modes[2] = STARPU_RW;  // only one triangle is written
             cl.name = "tlapack::starpu::syr2k";
 
             // The following lines are needed to make the codelet const
@@ -162,7 +162,7 @@ namespace starpu {
             cl.nbuffers = 3;
             cl.modes[0] = STARPU_R;
             cl.modes[1] = STARPU_R;
-            cl.modes[2] = is_same_v<beta_t, StrongZero> ? STARPU_W : STARPU_RW;
+            cl.modes[2] = STARPU_RW;  // only one triangle is written
             cl.name = "tlapack::starpu::her2k";
 
             // The following lines are needed to make the codelet const
-- 
2.43.0


From e4015f686992647b5c210ec10b6efcec82a90485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:45 +0000
Subject: [PATCH 099/101] fix: Bunch-Kaufman panel could accept a zero 1x1
 pivot when rounding made column and row of the reduced matrix differ

---
 include/tlapack/lapack/hetf3.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/hetf3.hpp b/include/tlapack/lapack/hetf3.hpp
index af8dcd5..6c13246 100644
--- a/include/tlapack/lapack/hetf3.hpp
+++ b/include/tlapack/lapack/hetf3.hpp
@@ -194,7 +194,7 @@ int hetf3(uplo_t uplo,
                     auto i_rowmax = i_colmax + 1 +
                                     tlapack::iamax(slice(
                                         W, range{i_colmax + 1, j + 1}, jW - 1));
-                    auto rowmax = abs1(W(i_rowmax, jW - 1));
+                    auto rowmax = max(colmax, abs1(W(i_rowmax, jW - 1)));
                     if (i_colmax > 0) {
                         i_rowmax = tlapack::iamax(
                             slice(W, range{0, i_colmax}, jW - 1));
@@ -400,7 +400,7 @@ int hetf3(uplo_t uplo,
                     }
                     auto i_rowmax =
                         j + tlapack::iamax(slice(W, range{j, i_colmax}, j + 1));
-                    auto rowmax = abs1(W(i_rowmax, j + 1));
+                    auto rowmax = max(colmax, abs1(W(i_rowmax, j + 1)));
                     if (i_colmax + 1 < n) {
                         i_rowmax = i_colmax + 1 +
                                    tlapack::iamax(
-- 
2.43.0


From a914837c28230ff9f9ed5715b96124773e9ca324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:45 +0000
Subject: [PATCH 100/101] fix: sub-blocks of Eigen blocks no longer claim to be
 inner panels

---
 include/tlapack/plugins/eigen.hpp | 48 +++++++++++++++++++------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/include/tlapack/plugins/eigen.hpp b/include/tlapack/plugins/eigen.hpp
index 8c87065..d2bec0c 100644
--- a/include/tlapack/plugins/eigen.hpp
+++ b/include/tlapack/plugins/eigen.hpp
@@ -302,6 +302,10 @@ constexpr auto col(T& A, Eigen::Index colIdx) noexcept
 }
 
 // Block operations for Eigen::Dense that are derived from Eigen::Block
+//
+// InnerPanel is only inherited if the new block keeps the whole inner
+// dimension: Eigen accesses an inner panel as contiguous, and possibly aligned,
+// memory.
 
 template <
     class XprType,
@@ -319,7 +323,7 @@ constexpr auto slice(Eigen::Block<XprType, BlockRows, BlockCols, InnerPanel>& A,
     assert(rows.second <= A.rows());
     assert(cols.second <= A.cols());
 
-    return Eigen::Block<XprType, Eigen::Dynamic, Eigen::Dynamic, InnerPanel>(
+    return Eigen::Block<XprType, Eigen::Dynamic, Eigen::Dynamic, false>(
         A.nestedExpression(), A.startRow() + rows.first,
         A.startCol() + cols.first, rows.second - rows.first,
         cols.second - cols.first);
@@ -337,7 +341,7 @@ constexpr auto slice(Eigen::Block<XprType, BlockRows, BlockCols, InnerPanel>& A,
     assert(rowIdx < A.rows());
     assert(cols.second <= A.cols());
 
-    return Eigen::Block<XprType, 1, Eigen::Dynamic, InnerPanel>(
+    return Eigen::Block<XprType, 1, Eigen::Dynamic, false>(
         A.nestedExpression(), A.startRow() + rowIdx, A.startCol() + cols.first,
         1, cols.second - cols.first);
 }
@@ -354,7 +358,7 @@ constexpr auto slice(Eigen::Block<XprType, BlockRows, BlockCols, InnerPanel>& A,
     assert(rows.second <= A.rows());
     assert(colIdx < A.cols());
 
-    return Eigen::Block<XprType, Eigen::Dynamic, 1, InnerPanel>(
+    return Eigen::Block<XprType, Eigen::Dynamic, 1, false>(
         A.nestedExpression(), A.startRow() + rows.first, A.startCol() + colIdx,
         rows.second - rows.first, 1);
 }
@@ -365,7 +369,7 @@ constexpr auto slice(Eigen::Block<XprType, BlockRows, 1, InnerPanel>& x,
 {
     assert(range.second <= x.size());
 
-    return Eigen::Block<XprType, Eigen::Dynamic, 1, InnerPanel>(
+    return Eigen::Block<XprType, Eigen::Dynamic, 1, false>(
         x.nestedExpression(), x.startRow() + range.first, x.startCol(),
         range.second - range.first, 1);
 }
@@ -376,7 +380,7 @@ constexpr auto slice(Eigen::Block<XprType, 1, BlockCols, InnerPanel>& x,
 {
     assert(range.second <= x.size());
 
-    return Eigen::Block<XprType, 1, Eigen::Dynamic, InnerPanel>(
+    return Eigen::Block<XprType, 1, Eigen::Dynamic, false>(
         x.nestedExpression(), x.startRow(), x.startCol() + range.first, 1,
         range.second - range.first);
 }
@@ -391,7 +395,8 @@ constexpr auto rows(Eigen::Block<XprType, BlockRows, BlockCols, InnerPanel>& A,
 {
     assert(rows.second <= A.rows());
 
-    return Eigen::Block<XprType, Eigen::Dynamic, BlockCols, InnerPanel>(
+    return Eigen::Block<XprType, Eigen::Dynamic, BlockCols,
+                        (InnerPanel && XprType::IsRowMajor)>(
         A.nestedExpression(), A.startRow() + rows.first, A.startCol(),
         rows.second - rows.first, A.cols());
 }
@@ -402,7 +407,8 @@ constexpr auto row(Eigen::Block<XprType, BlockRows, BlockCols, InnerPanel>& A,
 {
     assert(rowIdx < A.rows());
 
-    return Eigen::Block<XprType, 1, BlockCols, InnerPanel>(
+    return Eigen::Block<XprType, 1, BlockCols,
+                        (InnerPanel && XprType::IsRowMajor)>(
         A.nestedExpression(), A.startRow() + rowIdx, A.startCol(), 1, A.cols());
 }
 
@@ -416,7 +422,8 @@ constexpr auto cols(Eigen::Block<XprType, BlockRows, BlockCols, InnerPanel>& A,
 {
     assert(cols.second <= A.cols());
 
-    return Eigen::Block<XprType, BlockRows, Eigen::Dynamic, InnerPanel>(
+    return Eigen::Block<XprType, BlockRows, Eigen::Dynamic,
+                        (InnerPanel && !XprType::IsRowMajor)>(
         A.nestedExpression(), A.startRow(), A.startCol() + cols.first, A.rows(),
         cols.second - cols.first);
 }
@@ -427,7 +434,8 @@ constexpr auto col(Eigen::Block<XprType, BlockRows, BlockCols, InnerPanel>& A,
 {
     assert(colIdx < A.cols());
 
-    return Eigen::Block<XprType, BlockRows, 1, InnerPanel>(
+    return Eigen::Block<XprType, BlockRows, 1,
+                        (InnerPanel && !XprType::IsRowMajor)>(
         A.nestedExpression(), A.startRow(), A.startCol() + colIdx, A.rows(), 1);
 }
 
@@ -449,7 +457,7 @@ constexpr auto slice(
     assert(cols.second <= A.cols());
 
     return Eigen::Block<const XprType, Eigen::Dynamic, Eigen::Dynamic,
-                        InnerPanel>(
+                        false>(
         A.nestedExpression(), A.startRow() + rows.first,
         A.startCol() + cols.first, rows.second - rows.first,
         cols.second - cols.first);
@@ -468,7 +476,7 @@ constexpr auto slice(
     assert(rowIdx < A.rows());
     assert(cols.second <= A.cols());
 
-    return Eigen::Block<const XprType, 1, Eigen::Dynamic, InnerPanel>(
+    return Eigen::Block<const XprType, 1, Eigen::Dynamic, false>(
         A.nestedExpression(), A.startRow() + rowIdx, A.startCol() + cols.first,
         1, cols.second - cols.first);
 }
@@ -486,7 +494,7 @@ constexpr auto slice(
     assert(rows.second <= A.rows());
     assert(colIdx < A.cols());
 
-    return Eigen::Block<const XprType, Eigen::Dynamic, 1, InnerPanel>(
+    return Eigen::Block<const XprType, Eigen::Dynamic, 1, false>(
         A.nestedExpression(), A.startRow() + rows.first, A.startCol() + colIdx,
         rows.second - rows.first, 1);
 }
@@ -497,7 +505,7 @@ constexpr auto slice(const Eigen::Block<XprType, BlockRows, 1, InnerPanel>& x,
 {
     assert(range.second <= x.size());
 
-    return Eigen::Block<const XprType, Eigen::Dynamic, 1, InnerPanel>(
+    return Eigen::Block<const XprType, Eigen::Dynamic, 1, false>(
         x.nestedExpression(), x.startRow() + range.first, x.startCol(),
         range.second - range.first, 1);
 }
@@ -508,7 +516,7 @@ constexpr auto slice(const Eigen::Block<XprType, 1, BlockCols, InnerPanel>& x,
 {
     assert(range.second <= x.size());
 
-    return Eigen::Block<const XprType, 1, Eigen::Dynamic, InnerPanel>(
+    return Eigen::Block<const XprType, 1, Eigen::Dynamic, false>(
         x.nestedExpression(), x.startRow(), x.startCol() + range.first, 1,
         range.second - range.first);
 }
@@ -524,7 +532,8 @@ constexpr auto rows(
 {
     assert(rows.second <= A.rows());
 
-    return Eigen::Block<const XprType, Eigen::Dynamic, BlockCols, InnerPanel>(
+    return Eigen::Block<const XprType, Eigen::Dynamic, BlockCols,
+                        (InnerPanel && XprType::IsRowMajor)>(
         A.nestedExpression(), A.startRow() + rows.first, A.startCol(),
         rows.second - rows.first, A.cols());
 }
@@ -536,7 +545,8 @@ constexpr auto row(
 {
     assert(rowIdx < A.rows());
 
-    return Eigen::Block<const XprType, 1, BlockCols, InnerPanel>(
+    return Eigen::Block<const XprType, 1, BlockCols,
+                        (InnerPanel && XprType::IsRowMajor)>(
         A.nestedExpression(), A.startRow() + rowIdx, A.startCol(), 1, A.cols());
 }
 
@@ -551,7 +561,8 @@ constexpr auto cols(
 {
     assert(cols.second <= A.cols());
 
-    return Eigen::Block<const XprType, BlockRows, Eigen::Dynamic, InnerPanel>(
+    return Eigen::Block<const XprType, BlockRows, Eigen::Dynamic,
+                        (InnerPanel && !XprType::IsRowMajor)>(
         A.nestedExpression(), A.startRow(), A.startCol() + cols.first, A.rows(),
         cols.second - cols.first);
 }
@@ -563,7 +574,8 @@ constexpr auto col(
 {
     assert(colIdx < A.cols());
 
-    return Eigen::Block<const XprType, BlockRows, 1, InnerPanel>(
+    return Eigen::Block<const XprType, BlockRows, 1,
+                        (InnerPanel && !XprType::IsRowMajor)>(
         A.nestedExpression(), A.startRow(), A.startCol() + colIdx, A.rows(), 1);
 }
 
-- 
2.43.0


From fccc6dd6bdd9c1d6f412c8b19b9d3a24ecc07391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:22 +0000
Subject: [PATCH 101/101] fix: size of Eigen views with complex entries is no
 longer ambiguous with std::size

Blocks, vector blocks, diagonals, maps and transposes of arrays of
std::complex could not be passed to any routine: the call to size found both
tlapack::size for EigenBase and std::size.
---
 include/tlapack/plugins/eigen.hpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/include/tlapack/plugins/eigen.hpp b/include/tlapack/plugins/eigen.hpp
index d2bec0c..635c9c7 100644
--- a/include/tlapack/plugins/eigen.hpp
+++ b/include/tlapack/plugins/eigen.hpp
@@ -186,6 +186,35 @@ constexpr auto size(const Eigen::EigenBase<Derived>& x) noexcept
 {
     return x.size();
 }
+// Exact matches for the views of an Eigen array. They avoid the conflict with
+// std::size, which is visible when the scalar type is std::complex
+template <class XprType, int BlockRows, int BlockCols, bool InnerPanel>
+constexpr auto size(const Eigen::Block<XprType, BlockRows, BlockCols,
+                                       InnerPanel>& x) noexcept
+{
+    return x.size();
+}
+template <class VectorType, int Size>
+constexpr auto size(const Eigen::VectorBlock<VectorType, Size>& x) noexcept
+{
+    return x.size();
+}
+template <class MatrixType, int DiagIndex>
+constexpr auto size(const Eigen::Diagonal<MatrixType, DiagIndex>& x) noexcept
+{
+    return x.size();
+}
+template <class PlainObjectType, int MapOptions, class StrideType>
+constexpr auto size(const Eigen::Map<PlainObjectType, MapOptions, StrideType>&
+                        x) noexcept
+{
+    return x.size();
+}
+template <class MatrixType>
+constexpr auto size(const Eigen::Transpose<MatrixType>& x) noexcept
+{
+    return x.size();
+}
 // Number of rows
 template <class T>
 constexpr auto nrows(const Eigen::EigenBase<T>& x) noexcept
-- 
2.43.0

