From f0d8c33bd61e8e778750e12bc2e597ae95c23881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 01/66] fix: RCM must number every node of an unsymmetric
 adjacency graph

---
 src/hif/pre/rcm.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/hif/pre/rcm.hpp b/src/hif/pre/rcm.hpp
index cf117c6..6367df6 100644
--- a/src/hif/pre/rcm.hpp
+++ b/src/hif/pre/rcm.hpp
@@ -265,12 +265,15 @@ inline int genrcm_(const _Integer neqns, _Integer *xadj, const _Integer *adjncy,
   for (i__ = 1; i__ <= neqns; ++i__) mask[i__] = true;
   num = 1;
   for (i__ = 1; i__ <= neqns; ++i__) {
-    if (!mask[i__]) continue;
-    root = i__;
-    fnroot_(&root, &xadj[1], &adjncy[1], mask, &nlvl, &xls[1], &perm[num]);
-    rcm_(root, &xadj[1], &adjncy[1], mask, &perm[num], &ccsize, &xls[1]);
-    num += ccsize;
-    if (num > neqns) return 0;
+    // NOTE for unsymmetric adjacency, the nodes reachable from the (pseudo)
+    // peripheral root may not contain i__, thus we repeat until it is numbered
+    while (mask[i__]) {
+      root = i__;
+      fnroot_(&root, &xadj[1], &adjncy[1], mask, &nlvl, &xls[1], &perm[num]);
+      rcm_(root, &xadj[1], &adjncy[1], mask, &perm[num], &ccsize, &xls[1]);
+      num += ccsize;
+      if (num > neqns) return 0;
+    }
   }
   return 0;
 }
-- 
2.43.0


From 00275aba16761ec1c1fbc6904570b20093b8b587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 02/66] fix: QRCP of an all-zero block has rank zero, not full
 rank

---
 src/hif/small_scale/QRCP.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hif/small_scale/QRCP.hpp b/src/hif/small_scale/QRCP.hpp
index f8b8644..ea5fb86 100644
--- a/src/hif/small_scale/QRCP.hpp
+++ b/src/hif/small_scale/QRCP.hpp
@@ -140,6 +140,12 @@ class QRCP {
         _tau.data(), _work.data(), (size_type)abs(lwork), _rwork.data());
     hif_error_if(info < 0, "GEQP3 returned negative info");
 
+    // a zero leading diagonal means the matrix is numerically zero
+    if (_mat[0] == value_type(0)) {
+      _rank = 0;
+      return;
+    }
+
     // fast filtering to test diagonal entries
     bool            do_cond_test = false;
     const size_type N            = _tau.size();  // min (row, col)
-- 
2.43.0


From b9d164ccf53f71a9ded3731445c26ba7ae3406ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 03/66] fix: zero rows or columns must not produce infinite
 equilibration factors

---
 src/hif/pre/EqlDriver.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hif/pre/EqlDriver.hpp b/src/hif/pre/EqlDriver.hpp
index 5b5c120..10543a7 100644
--- a/src/hif/pre/EqlDriver.hpp
+++ b/src/hif/pre/EqlDriver.hpp
@@ -112,9 +112,12 @@ class EqlDriver {
 
       // update scaling if necessary, NOTE we pass in CRS, thus it matching
       // rescaling on the transpose of CCS
+      // NOTE for (numerically) zero rows/columns, the factors can overflow or
+      // underflow, for which no scaling is applied
       for (size_type i(0); i < n; ++i) {
-        s[i] *= eq.t(i);
-        t[i] *= eq.s(i);
+        const scalar_type si = eq.t(i), ti = eq.s(i);
+        if (std::isfinite(si) && si > scalar_type(0)) s[i] *= si;
+        if (std::isfinite(ti) && ti > scalar_type(0)) t[i] *= ti;
       }
     } while (false);  // bufs freed here
 
-- 
2.43.0


From 155953c6c487d9cb202cf245a6b839c2f41f4742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 04/66] fix: iterative pre-scaling must not divide by zero for
 zero rows or columns

---
 src/hif/pre/a_priori_scaling.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hif/pre/a_priori_scaling.hpp b/src/hif/pre/a_priori_scaling.hpp
index 5517bca..5db8c1d 100644
--- a/src/hif/pre/a_priori_scaling.hpp
+++ b/src/hif/pre/a_priori_scaling.hpp
@@ -199,12 +199,14 @@ inline void iterative_scale_p(const PermType &p, CrsType &A, ScalingType &rs,
           local_cs[j]  = std::max(std::abs(*v_itr), local_cs[j]);
         }
       }
-      local_rs[p[row]] = 1. / std::sqrt(tmp);
+      // NOTE zero rows are not scaled
+      local_rs[p[row]] = tmp > 0 ? 1. / std::sqrt(tmp) : 1.;
     }
     for (size_type i(0); i < m; ++i) rs[i] *= local_rs[i];
     if (!IsSymm) {
       for (size_type i(0); i < n; ++i) {
-        const auto tmp = 1. / std::sqrt(local_cs[i]);
+        // NOTE zero columns are not scaled
+        const auto tmp = local_cs[i] > 0 ? 1. / std::sqrt(local_cs[i]) : 1.;
         local_cs[i]    = tmp;
         cs[i] *= tmp;
       }
-- 
2.43.0


From 06d43d71523af010e237b8bd78d3f0715c738d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 05/66] fix: a Schur complement without nonzeros ends in the
 dense block instead of an allocation error

---
 src/hif/alg/factor.hpp       | 2 +-
 src/hif/alg/pivot_factor.hpp | 2 +-
 src/hif/alg/symm_factor.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index 8472352..7459df4 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -1231,7 +1231,7 @@ inline CsType level_factorize(
 
   if ((post_flag < 0 && opts.pivot != PIVOTING_AUTO) ||
       (size_type)std::ceil(nm * nm * opts.rho) <= dense_thres1 ||
-      nm <= dense_thres2 || !m) {
+      nm <= dense_thres2 || !m || !S.nnz()) {
     // NOTE: if pivoting is auto, then we try to compute the Schur using the
     // pivoting kernel.
     S_D = dense_type::from_sparse(S);
diff --git a/src/hif/alg/pivot_factor.hpp b/src/hif/alg/pivot_factor.hpp
index 4e36be9..351f178 100644
--- a/src/hif/alg/pivot_factor.hpp
+++ b/src/hif/alg/pivot_factor.hpp
@@ -685,7 +685,7 @@ inline CsType pivot_level_factorize(
 
   if (post_flag < 0 ||
       (size_type)std::ceil(nm * nm * opts.rho) <= dense_thres1 ||
-      nm <= dense_thres2 || !m) {
+      nm <= dense_thres2 || !m || !S.nnz()) {
     S_D = dense_type::from_sparse(S);
     if (hif_verbose(INFO, opts))
       hif_info("converted Schur complement (S) to dense for last level...");
diff --git a/src/hif/alg/symm_factor.hpp b/src/hif/alg/symm_factor.hpp
index 546d38e..3f04f39 100644
--- a/src/hif/alg/symm_factor.hpp
+++ b/src/hif/alg/symm_factor.hpp
@@ -598,7 +598,7 @@ inline CsType symm_level_factorize(
 
   if (post_flag < 0 ||
       (size_type)std::ceil(nm * nm * opts.rho) <= dense_thres1 ||
-      nm <= dense_thres2 || !m) {
+      nm <= dense_thres2 || !m || !S.nnz()) {
     S_D = dense_type::from_sparse(S);
     if (hif_verbose(INFO, opts))
       hif_info("converted Schur complement (S) to dense for last level...");
-- 
2.43.0


From dcb7c8f7da731fd02f55dfeb6fe86900d081e8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:58 +0000
Subject: [PATCH 06/66] fix: skipping preprocessing must respect the symmetric
 leading block size

---
 src/hif/alg/factor.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index 7459df4..fb1de19 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -682,7 +682,8 @@ inline CsType level_factorize(
     std::fill(s.begin(), s.end(), scalar_type(1));
     t.resize(A.ncols());
     std::fill(t.begin(), t.end(), scalar_type(1));
-    m = A.nrows();
+    // without preprocessing, only the leading block (if given) is symmetric
+    m = IsSymm ? m0 : A.nrows();
   }
   timer.finish();  // prefile pre-processing
 
-- 
2.43.0


From 52d5b229cc3151a656fc778f694b01a66b63ca07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 07/66] fix: symmetric factorization of complex Hermitian
 matrices conjugates consistently

---
 src/hif/alg/Crout.hpp       | 22 ++++++++++++++++++++--
 src/hif/alg/symm_factor.hpp | 11 ++++++-----
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/hif/alg/Crout.hpp b/src/hif/alg/Crout.hpp
index dded03a..f1fccba 100644
--- a/src/hif/alg/Crout.hpp
+++ b/src/hif/alg/Crout.hpp
@@ -36,6 +36,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 #include "hif/utils/common.hpp"
 #include "hif/utils/log.hpp"
+#include "hif/utils/math.hpp"
 
 namespace hif {
 
@@ -379,9 +380,9 @@ class Crout {
         hif_assert((size_type)L_col < _step,
                    "compute_ut row index %zd should not exceed step %zd for U",
                    (size_type)L_col, _step);
-        // compute d*L^T
+        // compute d*L^H
         auto       L_v_itr = L.val_cbegin(L_col) + L_start[L_col];
-        const auto dlt     = d[L_col] * *L_v_itr;
+        const auto dlt     = d[L_col] * conjugate(*L_v_itr);
         auto       L_i_itr = L.row_ind_cbegin(L_col) + L_start[L_col],
              L_last        = L.row_ind_cend(L_col);
         if (L_i_itr != L_last) {
@@ -629,6 +630,23 @@ class Crout {
     }
   }
 
+  /// \brief update diagonal entries for symmetric (Hermitian) factorization
+  /// \tparam SpVecType sparse vector for storing l, see \ref SparseVector
+  /// \tparam DiagType diagonal array type, see \ref Array
+  /// \param[in] l current column vector of L (scaled by the diagonal)
+  /// \param[in] m leading block size
+  /// \param[in,out] d diagonal vector
+  template <class SpVecType, class DiagType>
+  inline void symm_update_diag(const SpVecType &l, const size_type m,
+                               DiagType &d) const {
+    const auto      dk = d[_step];
+    const size_type n  = l.size();
+    for (size_type i(0); i < n; ++i) {
+      const size_type idx = l.idx(i);
+      if (idx < m) d[idx] -= dk * l.val(i) * conjugate(l.val(i));
+    }
+  }
+
   /// \brief scale the computed row/column vectors by current diagonal inverse
   /// \tparam DiagType diagonal matrix type, see \ref Array
   /// \tparam SpVecType sparse vector for storing l/U, see \ref SparseVector
diff --git a/src/hif/alg/symm_factor.hpp b/src/hif/alg/symm_factor.hpp
index 3f04f39..58f527a 100644
--- a/src/hif/alg/symm_factor.hpp
+++ b/src/hif/alg/symm_factor.hpp
@@ -152,9 +152,8 @@ inline CsType symm_level_factorize(
 
   // build counterpart type
   other_type A_counterpart;
-  // NOTE: This can be done efficiently for symmetric real systems
-  // NOTE: For complex Hermitian matrix, the following will not work
-  internal::make_transpose(A, A_counterpart);
+  // NOTE: This can be done efficiently for symmetric (Hermitian) systems
+  internal::make_transpose(A, A_counterpart, true);
 
   // now use our trait and its static methods to precisely determine the ccs
   // and crs components.
@@ -396,7 +395,7 @@ inline CsType symm_level_factorize(
                cur_level, step);
 
     // update diagonals b4 dropping
-    step.update_diag<true>(l, l, m2, d);
+    step.symm_update_diag(l, m2, d);
 
     //---------------
     // drop and sort
@@ -623,12 +622,14 @@ inline CsType symm_level_factorize(
     A_counterpart.destroy();
   }
 
-  // construct F differently for symmetric real systems
+  // construct F differently for symmetric (Hermitian) systems
   crs_type F_ccs(E);
   F.resize(E.ncols(), E.nrows());
   F.inds()      = F_ccs.inds();
   F.ind_start() = F_ccs.ind_start();
   F.vals()      = F_ccs.vals();
+  if (!std::is_floating_point<value_type>::value)
+    for (auto &v : F.vals()) v = conjugate(v);
 
   // recursive function free
   if (cur_level > 1u) const_cast<input_type &>(A).destroy();
-- 
2.43.0


From 593aeb8f70d0c99532e39e3756aa70c9150d14da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 08/66] fix: an entirely deferred symmetric leading block is
 not an allocation failure

---
 src/hif/alg/factor.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index fb1de19..e975539 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -744,13 +744,10 @@ inline CsType level_factorize(
       "memory allocation failed for L_start and/or U_start at level %zd.",
       cur_level);
 
-  Array<indptr_type> L_offsets;
-  if (IsSymm) {
-    L_offsets.resize(m);
-    hif_error_if(L_offsets.status() == DATA_UNDEF,
-                 "memory allocation failed for L_offsets at level %zd.",
-                 cur_level);
-  }
+  Array<indptr_type> L_offsets(IsSymm ? m : size_type(0));
+  hif_error_if(L_offsets.status() == DATA_UNDEF,
+               "memory allocation failed for L_offsets at level %zd.",
+               cur_level);
 
   const Array<indptr_type> &Crout_L_start = !IsSymm ? L_start : L_offsets;
 
-- 
2.43.0


From 5d047a23ea8f381ffb08946c048e4a3c0c888784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 09/66] fix: extracting a leading block without nonzeros yields
 an empty block

---
 src/hif/ds/CompressedStorage.hpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 0079753..7e4dbf6 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -620,15 +620,13 @@ class CompressedStorage {
       nz += (last - ind_cbegin(i));
     }
     indices.resize(nz);
-    if (nz) {
-      hif_error_if(indices.status() == DATA_UNDEF, "memory allocation failed");
-      indptr.front() = 0;
-      auto itr       = indices.begin();
-      for (size_type i(0); i < m; ++i) {
-        auto last     = _indices.cbegin() + indptr[i + 1];
-        itr           = std::copy(ind_cbegin(i), last, itr);
-        indptr[i + 1] = indptr[i] + (last - ind_cbegin(i));
-      }
+    hif_error_if(nz && indices.status() == DATA_UNDEF,
+                 "memory allocation failed");
+    auto itr = indices.begin();
+    for (size_type i(0); i < m; ++i) {
+      auto last     = _indices.cbegin() + indptr[i + 1];
+      itr           = std::copy(ind_cbegin(i), last, itr);
+      indptr[i + 1] = indptr[i] + (last - ind_cbegin(i));
     }
   }
 
@@ -641,7 +639,8 @@ class CompressedStorage {
                                iarray_type &indices, array_type &vals) const {
     _extract_leading_struct(m, indptr, indices);
     vals.resize(indices.size());
-    hif_error_if(vals.status() == DATA_UNDEF, "memory allocation failed");
+    hif_error_if(indices.size() && vals.status() == DATA_UNDEF,
+                 "memory allocation failed");
     auto v_itr = vals.begin();
     for (size_type i(0); i < m; ++i)
       v_itr = std::copy_n(val_cbegin(i), indptr[i + 1] - indptr[i], v_itr);
-- 
2.43.0


From 1900a1744542f55bd0517df7ef7869d94212ec87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 10/66] fix: preprocessing of a block without nonzeros skips
 the matching instead of failing

---
 src/hif/pre/EqlDriver.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/hif/pre/EqlDriver.hpp b/src/hif/pre/EqlDriver.hpp
index 10543a7..9628de2 100644
--- a/src/hif/pre/EqlDriver.hpp
+++ b/src/hif/pre/EqlDriver.hpp
@@ -77,6 +77,15 @@ class EqlDriver {
     hif_assert(s.size() >= n, "invalid S row scaling size");
     hif_assert(t.size() >= n, "invalid T column scaling size");
 
+    if (!nnz) {
+      // nothing to match nor to scale
+      for (size_type i(0); i < n; ++i) {
+        p[i] = q[i] = i;
+        s[i] = t[i] = scalar_type(1);
+      }
+      return;
+    }
+
     do {
       // check if pre-scaling is requested
       switch (pre_scale) {
-- 
2.43.0


From 61bdf2a8a372da37693bc3ff52bca51568e8fff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 11/66] fix: test the index range before reading the mask in
 compute_leading_block

---
 src/hif/pre/matching_scaling.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/pre/matching_scaling.hpp b/src/hif/pre/matching_scaling.hpp
index f005e52..7bb3607 100644
--- a/src/hif/pre/matching_scaling.hpp
+++ b/src/hif/pre/matching_scaling.hpp
@@ -269,7 +269,7 @@ inline CcsType compute_leading_block(const CcsType &A, const CrsType &A_crs,
                   last = A_crs.col_ind_cend(row);
              itr != last; ++itr) {
           const size_type ind = q.inv(*itr);
-          if (!masks[ind] && ind < m) {
+          if (ind < m && !masks[ind]) {
             masks[ind] = true;
             buf[nnz++] = ind;
           }
@@ -303,7 +303,7 @@ inline CcsType compute_leading_block(const CcsType &A, const CrsType &A_crs,
       for (auto itr = A_crs.col_ind_cbegin(row), last = A_crs.col_ind_cend(row);
            itr != last; ++itr) {
         const size_type ind = q.inv(*itr);
-        if (!masks[ind] && ind < m) {
+        if (ind < m && !masks[ind]) {
           masks[ind] = true;
           *i_itr++   = ind;
         }
-- 
2.43.0


From 2e42f5bf38691623937848ab22bac5444410d799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 12/66] fix: an input without nonzeros is not an allocation
 failure

---
 src/hif/alg/factor.hpp       | 6 ++++--
 src/hif/alg/pivot_factor.hpp | 6 ++++--
 src/hif/alg/symm_factor.hpp  | 3 ++-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index e975539..5cef340 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -716,7 +716,8 @@ inline CsType level_factorize(
         HIF_RESERVE_FAC <= 0 ? std::ceil(opts.alpha_U) : HIF_RESERVE_FAC;
     U.reserve(A.nnz() * rsv_fac);
     hif_error_if(
-        U.col_ind().status() == DATA_UNDEF || U.vals().status() == DATA_UNDEF,
+        A.nnz() && (U.col_ind().status() == DATA_UNDEF ||
+                    U.vals().status() == DATA_UNDEF),
         "memory allocation failed for U-nnz arrays at level %zd.", cur_level);
   } while (false);
 
@@ -730,7 +731,8 @@ inline CsType level_factorize(
         HIF_RESERVE_FAC <= 0 ? std::ceil(opts.alpha_L) : HIF_RESERVE_FAC;
     L.reserve(A.nnz() * rsv_fac);
     hif_error_if(
-        L.row_ind().status() == DATA_UNDEF || L.vals().status() == DATA_UNDEF,
+        A.nnz() && (L.row_ind().status() == DATA_UNDEF ||
+                    L.vals().status() == DATA_UNDEF),
         "memory allocation failed for L-nnz arrays at level %zd.", cur_level);
   } while (false);
 
diff --git a/src/hif/alg/pivot_factor.hpp b/src/hif/alg/pivot_factor.hpp
index 351f178..86f8504 100644
--- a/src/hif/alg/pivot_factor.hpp
+++ b/src/hif/alg/pivot_factor.hpp
@@ -193,7 +193,8 @@ inline CsType pivot_level_factorize(
         HIF_RESERVE_FAC <= 0 ? std::ceil(opts.alpha_U) : HIF_RESERVE_FAC;
     U.reserve(A.nnz() * rsv_fac);
     hif_error_if(
-        U.col_ind().status() == DATA_UNDEF || U.vals().status() == DATA_UNDEF,
+        A.nnz() && (U.col_ind().status() == DATA_UNDEF ||
+                    U.vals().status() == DATA_UNDEF),
         "memory allocation failed for U-nnz arrays at level %zd.", cur_level);
   } while (false);
 
@@ -207,7 +208,8 @@ inline CsType pivot_level_factorize(
         HIF_RESERVE_FAC <= 0 ? std::ceil(opts.alpha_L) : HIF_RESERVE_FAC;
     L.reserve(A.nnz() * rsv_fac);
     hif_error_if(
-        L.row_ind().status() == DATA_UNDEF || L.vals().status() == DATA_UNDEF,
+        A.nnz() && (L.row_ind().status() == DATA_UNDEF ||
+                    L.vals().status() == DATA_UNDEF),
         "memory allocation failed for L-nnz arrays at level %zd.", cur_level);
   } while (false);
 
diff --git a/src/hif/alg/symm_factor.hpp b/src/hif/alg/symm_factor.hpp
index 58f527a..0e9f49b 100644
--- a/src/hif/alg/symm_factor.hpp
+++ b/src/hif/alg/symm_factor.hpp
@@ -248,7 +248,8 @@ inline CsType symm_level_factorize(
         HIF_RESERVE_FAC <= 0 ? std::ceil(opts.alpha_L) : HIF_RESERVE_FAC;
     L.reserve(A.nnz() * rsv_fac);
     hif_error_if(
-        L.row_ind().status() == DATA_UNDEF || L.vals().status() == DATA_UNDEF,
+        A.nnz() && (L.row_ind().status() == DATA_UNDEF ||
+                    L.vals().status() == DATA_UNDEF),
         "memory allocation failed for L-nnz arrays at level %zd.", cur_level);
   } while (false);
 
-- 
2.43.0


From 36d2ff9f90ddc8da790b67562c7be7150f69bf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 13/66] fix: pre-scaling and reordering accept blocks without
 nonzeros

---
 src/hif/pre/matching_scaling.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hif/pre/matching_scaling.hpp b/src/hif/pre/matching_scaling.hpp
index 7bb3607..0eceaa7 100644
--- a/src/hif/pre/matching_scaling.hpp
+++ b/src/hif/pre/matching_scaling.hpp
@@ -226,7 +226,8 @@ inline CcsType compute_leading_block(const CcsType &A, const CrsType &A_crs,
     auto &row_ind = B.row_ind();
     // NOTE we only indices for reordering step
     row_ind.resize(col_start[m]);
-    hif_error_if(row_ind.status() == DATA_UNDEF, "memory allocation failed");
+    hif_error_if(col_start[m] && row_ind.status() == DATA_UNDEF,
+                 "memory allocation failed");
     auto itr = row_ind.begin();
 
     // assemble nnz arrays
@@ -286,7 +287,8 @@ inline CcsType compute_leading_block(const CcsType &A, const CrsType &A_crs,
     auto &row_ind = B.row_ind();
     // NOTE we only indices for reordering step
     row_ind.resize(col_start[m]);
-    hif_error_if(row_ind.status() == DATA_UNDEF, "memory allocation failed");
+    hif_error_if(col_start[m] && row_ind.status() == DATA_UNDEF,
+                 "memory allocation failed");
 
     auto i_itr = row_ind.begin();
     for (size_type i(0); i < m; ++i) {
@@ -399,7 +401,8 @@ inline std::pair<CcsType, typename CcsType::size_type> do_maching(
         B.col_ind()   = typename CrsType::iarray_type(A_crs.col_ind(), true);
       }
       B.vals().resize(A_crs.nnz());
-      hif_error_if(B.vals().status() == DATA_UNDEF, "memory allocation failed");
+      hif_error_if(A_crs.nnz() && B.vals().status() == DATA_UNDEF,
+                   "memory allocation failed");
       std::copy(A_crs.vals().cbegin(), A_crs.vals().cend(), B.vals().begin());
     }
   } else
-- 
2.43.0


From 7acce1dffe797a73aa50416bc855001a70806768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:56 +0000
Subject: [PATCH 14/66] fix: the lower and upper drop tolerances govern the
 lower and upper factors

---
 src/hif/alg/factor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index 5cef340..5afc686 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -101,7 +101,7 @@ determine_fac_pars(const Options &opts, const int lvl) {
     alpha_L = opts.alpha_L;
     alpha_U = opts.alpha_U;
   }
-  return std::make_tuple(kappa_d, kappa, tau_U, tau_L, alpha_L, alpha_U);
+  return std::make_tuple(kappa_d, kappa, tau_L, tau_U, alpha_L, alpha_U);
 }
 
 /// \brief extract permutated diagonal
-- 
2.43.0


From 9a1c840eac6dcc183f1140d975456570fdf0a156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 15/66] fix: truncate the wrong-signed eigenvalues of definite
 dense blocks

---
 src/hif/small_scale/SYEIG.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/hif/small_scale/SYEIG.hpp b/src/hif/small_scale/SYEIG.hpp
index b259604..496fc01 100644
--- a/src/hif/small_scale/SYEIG.hpp
+++ b/src/hif/small_scale/SYEIG.hpp
@@ -134,23 +134,24 @@ class SYEIG {
     _trunc_order.resize(n);
     std::iota(_trunc_order.begin(), _trunc_order.end(), 0);
     const scalar_type thres =
-        EPS * *std::max_element(_w.cbegin(), _w.cend(),
-                                [](const value_type a, const value_type b) {
-                                  return std::abs(a) < std::abs(b);
-                                });
+        EPS *
+        std::abs(*std::max_element(_w.cbegin(), _w.cend(),
+                                   [](const value_type a, const value_type b) {
+                                     return std::abs(a) < std::abs(b);
+                                   }));
     _rank = n;
     if (opts.spd > 0) {
       // ensure pd-ness
-      for (int i(n - 1); i > -1; --i)
+      // reverse the order for truncations (eigenvalues are in ascending order)
+      std::reverse(_trunc_order.begin(), _trunc_order.end());
+      for (size_type i(0); i < n; ++i)
         if (_w[i] <= 0.0 || std::abs(_w[i]) <= thres)
           --_rank;
         else
           break;
     } else if (opts.spd < 0) {
       // ensure nd-ness
-      // reverse the order for truncations
-      std::reverse(_trunc_order.begin(), _trunc_order.end());
-      for (size_type i(0); i < n; ++i)
+      for (int i(n - 1); i > -1; --i)
         if (_w[i] >= 0.0 || std::abs(_w[i]) <= thres)
           --_rank;
         else
-- 
2.43.0


From 02263aaf33028f87e10d73d37c13de48de9c55de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 16/66] fix: several right-hand sides in the symmetric dense
 solver address their own columns

---
 src/hif/small_scale/SYEIG.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hif/small_scale/SYEIG.hpp b/src/hif/small_scale/SYEIG.hpp
index 496fc01..4509b10 100644
--- a/src/hif/small_scale/SYEIG.hpp
+++ b/src/hif/small_scale/SYEIG.hpp
@@ -235,7 +235,7 @@ class SYEIG {
     for (size_type i = 0; i < Nrhs; ++i) {
       // step 1, compute y=Q^T*x
       lapack_kernel::gemv('C', _mat.nrows(), _mat.ncols(), value_type(1),
-                          _mat.data(), _mat.nrows(), &_mrhs(0, i * Nrhs),
+                          _mat.data(), _mat.nrows(), &_mrhs(0, i),
                           value_type(0), _work.data());
       // step 2, solve inv(lambda)*y with truncation
       for (size_type i(0); i < rk; ++i)
@@ -244,7 +244,7 @@ class SYEIG {
       // step 3, compute x=Q*y
       lapack_kernel::gemv('N', _mat.nrows(), _mat.ncols(), value_type(1),
                           _mat.data(), _mat.nrows(), _work.data(),
-                          value_type(0), &_mrhs(0, i * Nrhs));
+                          value_type(0), &_mrhs(0, i));
     }
     // copy back to the application
     for (int j = 0; j < Nrhs; ++j)
@@ -301,7 +301,7 @@ class SYEIG {
     for (size_type i = 0; i < Nrhs; ++i) {
       // step 1, compute y=Q^T*x
       lapack_kernel::gemv('C', _mat.nrows(), _mat.ncols(), value_type(1),
-                          _mat.data(), _mat.nrows(), &_mrhs(0, i * Nrhs),
+                          _mat.data(), _mat.nrows(), &_mrhs(0, i),
                           value_type(0), _work.data());
       // step 2, compute lambda*y with truncation
       for (size_type i(0); i < rk; ++i)
@@ -310,7 +310,7 @@ class SYEIG {
       // step 3, compute x=Q*y
       lapack_kernel::gemv('N', _mat.nrows(), _mat.ncols(), value_type(1),
                           _mat.data(), _mat.nrows(), _work.data(),
-                          value_type(0), &_mrhs(0, i * Nrhs));
+                          value_type(0), &_mrhs(0, i));
     }
     // copy back to the application
     for (int j = 0; j < Nrhs; ++j)
-- 
2.43.0


From 5f5a3ecfa4c2f696efc1117e22f00a9ed5ee90d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:24 +0000
Subject: [PATCH 17/66] fix: several right-hand sides keep the solution of the
 next level and size their work space

---
 src/hif/alg/prec_solve.hpp | 8 ++++----
 src/hif/builder.hpp        | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hif/alg/prec_solve.hpp b/src/hif/alg/prec_solve.hpp
index 74f177c..fd8a3a6 100644
--- a/src/hif/alg/prec_solve.hpp
+++ b/src/hif/alg/prec_solve.hpp
@@ -484,17 +484,17 @@ inline void prec_solve_mrhs(PrecItr prec_itr,
   } else {
     auto y_mn = interface_array_type(nm, y.data() + m, WRAP);
     // advance to next buffer region
-    auto work_next = work_array_type(nm, &work[n], WRAP);
-    auto work_b    = work_array_type(nm, &work[0] + m, WRAP);
+    auto work_next = work_array_type(work.size() - n, work.data() + n, WRAP);
+    auto work_b    = work_array_type(nm, work.data() + m, WRAP);
     for (size_type i(0); i < nm; ++i)
-      for (size_type k(0); k < Nrhs; ++k) y_mn[i][k] = work_b[i][k];
+      for (size_type k(0); k < Nrhs; ++k) work_b[i][k] = y_mn[i][k];
     // rec call, note that y_mn should store the solution
     prec_solve_mrhs(++prec_itr, work_b, last_dim, y_mn, work_next);
   }
 
   // copy y(m+1:n) to work(m+1:n)
   for (size_type i(m); i < n; ++i)
-    for (size_type k(0); k < Nrhs; ++k) y[i][k] = work[i][k];
+    for (size_type k(0); k < Nrhs; ++k) work[i][k] = y[i][k];
 
   // only handle the F part if it's not empty
   if (prec.F.ncols()) {
diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index aa23a49..8c18730 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -438,7 +438,7 @@ class HIF {
     hif_error_if(b.size() != x.size(), "unmatched sizes");
     hif_error_if(nsp, "multiple RHS does not support null space filter.");
     const auto nw = compute_prec_work_space(_precs.cbegin(), _precs.cend());
-    if (_prec_work.empty()) _prec_work.resize(nw * Nrhs);
+    if (_prec_work.size() < nw * Nrhs) _prec_work.resize(nw * Nrhs);
     Array<std::array<boost_value_type, Nrhs>> w(
         nw, (std::array<boost_value_type, Nrhs> *)_prec_work.data(), true);
     prec_solve_mrhs(_precs.cbegin(), b, r, x, w);
-- 
2.43.0


From 9f6d0f4b3b181b88ffa9ba159e25c12c35d60c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 18/66] fix: assigning and copying moved-from or aliasing
 arrays

---
 src/hif/ds/Array.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hif/ds/Array.hpp b/src/hif/ds/Array.hpp
index a63dea3..097342f 100644
--- a/src/hif/ds/Array.hpp
+++ b/src/hif/ds/Array.hpp
@@ -219,8 +219,8 @@ class Array {
       _size   = other._size;
       _cap    = other._cap;
       _status = other._status;
-      // increment the counter
-      _counts->inc();
+      // increment the counter, NOTE that a moved array has no counter
+      if (_counts) _counts->inc();
     } else {
       // deep copy
       _counts = new _RefCount();
@@ -258,7 +258,7 @@ class Array {
   /// \param[in] other rhs Array
   /// \return lvalue reference of \a this
   Array& operator=(const Array& other) {
-    if (_data != other._data) {
+    if (this != &other) {
       // first, deallocate this
       this->~Array();
       _data   = other._data;
@@ -266,7 +266,7 @@ class Array {
       _cap    = other._cap;
       _status = other._status;
       _counts = other._counts;
-      _counts->inc();
+      if (_counts) _counts->inc();
     }
     return *this;
   }
@@ -275,7 +275,7 @@ class Array {
   /// \param[in] other rhs temp Array
   /// \return lvalue reference of \a this
   Array& operator=(Array&& other) {
-    if (_data != other._data) {
+    if (this != &other) {
       // call destructor
       this->~Array();
       _data   = other._data;
-- 
2.43.0


From 3d3d836d24d20ee369ec6073b69d98fd1f952288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 19/66] fix: the transposed product with several vectors
 conjugates like the one with a single vector

---
 src/hif/ds/CompressedStorage.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 7e4dbf6..cea7d3b 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1301,7 +1301,8 @@ class CRS
       for (auto last = col_ind_cend(i); i_itr != last; ++i_itr, ++v_itr) {
         const size_type j = *i_itr;
         hif_assert(j < _ncols, "%zd exceeds column size", j);
-        for (size_type k(0); k < Nrhs; ++k) y[j * Nrhs + k] += temp[k] * *v_itr;
+        const auto avc = conjugate(*v_itr);
+        for (size_type k(0); k < Nrhs; ++k) y[j * Nrhs + k] += temp[k] * avc;
       }
     }
   }
@@ -2210,8 +2211,9 @@ class CCS
       for (auto last = row_ind_cend(i); i_itr != last; ++i_itr, ++v_itr) {
         hif_assert(size_type(*i_itr) < _nrows, "%zd exceeds the size bound",
                    size_type(*i_itr));
-        const auto av = *v_itr;
-        for (size_type k(0); k < Nrhs; ++k) tmp[k] += x[*i_itr * Nrhs + k] * av;
+        const auto avc = conjugate(*v_itr);
+        for (size_type k(0); k < Nrhs; ++k)
+          tmp[k] += x[*i_itr * Nrhs + k] * avc;
       }
       for (size_type k(0); k < Nrhs; ++k) y[i * Nrhs + k] = tmp[k];
     }
-- 
2.43.0


From 44a5826840fe7888faba07ff11615a6ccbd045f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 20/66] fix: transposed lower triangular solves with several
 right-hand sides visit every entry

---
 src/hif/ds/CompressedStorage.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index cea7d3b..2816294 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1429,7 +1429,7 @@ class CRS
     using rev_v_iterator = std::reverse_iterator<const_v_iterator>;
 
     std::array<InOutType, Nrhs> tmp;
-    for (size_type j(_ncols - 1); j != 0u; --j) {
+    for (size_type j(_ncols); j != 0u; --j) {
       const auto j1 = j - 1;
       for (size_type k(0); k < Nrhs; ++k) tmp[k] = y[j1][k];
       auto itr   = rev_iterator(col_ind_cend(j1));
@@ -2341,7 +2341,7 @@ class CCS
       auto            itr   = row_ind_cbegin(j1);
       auto            v_itr = _base::val_cbegin(j1);
       tmp.fill(v_t(0));
-      for (auto last = row_ind_cbegin(j1); itr != last; ++itr, ++v_itr) {
+      for (auto last = row_ind_cend(j1); itr != last; ++itr, ++v_itr) {
         const auto avc = conjugate(static_cast<v_t>(*v_itr));
         for (size_type k(0); k < Nrhs; ++k) tmp[k] += avc * y[*itr][k];
       }
-- 
2.43.0


From f34b7c079058ec78f6723058c9cbcf73bec84132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 21/66] fix: pruning compares with the largest entry of the row
 and of the column

---
 src/hif/ds/CompressedStorage.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 2816294..17094f2 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -674,10 +674,10 @@ class CompressedStorage {
       // index since this maybe called by the user directly, and the user
       // may use 1-based index.
       Array<scalar_type> buf(n + 1);
-      std::fill_n(buf.begin(), n, scalar_type(0));
+      std::fill(buf.begin(), buf.end(), scalar_type(0));
       // determine the thresholds for the orthogonal direction
       for (size_type i(0); i < nz; ++i)
-        buf[_indices[i]] = eps * std::max(buf[_indices[i]], std::abs(_vals[i]));
+        buf[_indices[i]] = std::max(buf[_indices[i]], std::abs(_vals[i]));
       for (size_type i(0); i < psize; ++i) {
         const size_type j_bak(j);
         auto            v_itr = v_itr_first + pos;
@@ -693,7 +693,7 @@ class CompressedStorage {
                   }));
           auto i_itr2 = i_itr;
           for (auto itr = v_itr; itr != last; ++itr, ++i_itr2)
-            if (!(std::abs(*itr) <= std::min(thres, buf[*i_itr2]))) {
+            if (!(std::abs(*itr) <= std::min(thres, eps * buf[*i_itr2]))) {
               _indices[j] = *i_itr2;
               _vals[j++]  = *itr;
             }
-- 
2.43.0


From 26f04e2a6b176c5a1ff581ed7500017f52c37c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:24 +0000
Subject: [PATCH 22/66] fix: validity checking detects decreasing or missing
 index offsets

---
 src/hif/ds/CompressedStorage.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 17094f2..8692783 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -194,12 +194,18 @@ class CompressedStorage {
     static const char *pname = IsRow ? "row" : "column";
     static const char *oname = IsRow ? "column" : "row";
 
-    if (status() != DATA_UNDEF) {
+    if (_psize) {
       hif_error_if(_ind_start.size() < _psize + 1,
                    "invalid %s size and %s start array length", pname, pname);
       hif_error_if(_ind_start.front() != 0,
                    "the leading entry in %s start should be zero", pname);
-      if (nnz() > _indices.size() || nnz() > _vals.size())
+      for (size_type i = 0u; i < _psize; ++i)
+        hif_error_if(_ind_start[i + 1] < _ind_start[i],
+                     "%s start is decreasing at %s %zd (C-based)", pname, pname,
+                     i);
+      if (size_type(_ind_start[_psize]) > _indices.size() ||
+          size_type(_ind_start[_psize]) > _vals.size() ||
+          nnz() > _indices.size() || nnz() > _vals.size())
         hif_error(
             "inconsistent between nnz (%s_start(end)-%s_start(first),%zd) and "
             "indices/values length %zd/%zd",
-- 
2.43.0


From e016b9edfc7b3980672ad31caed186996481584a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:24 +0000
Subject: [PATCH 23/66] fix: wrapping user columns checks every column

---
 src/hif/ds/CompressedStorage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 8692783..968ae14 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -2687,7 +2687,7 @@ inline CCS<ValueType, IndexType, IndPtrType> wrap_const_ccs(
     if (col_start[0] != 0)
       hif_error("first entry of row_start does not agree with 0.");
     Array<ValueType> buf;
-    for (size_type i = 0u; i < nrows; ++i) {
+    for (size_type i = 0u; i < ncols; ++i) {
       if (!mat.nnz_in_col(i)) {
 #ifdef HIF_DEBUG
         hif_warning("row %zd is empty!", i);
-- 
2.43.0


From ae9cadc09e738a01c5eb0f7f44a38a280a87188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:24 +0000
Subject: [PATCH 24/66] fix: the transposed product of a matrix without rows is
 zero

---
 src/hif/ds/CompressedStorage.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 968ae14..a3ce317 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1257,8 +1257,8 @@ class CRS
         typename std::conditional<(sizeof(Vx) > sizeof(Vy)), Vx, Vy>::type;
     using v_t = typename std::conditional<(sizeof(v1_t) > sizeof(value_type)),
                                           v1_t, value_type>::type;
-    if (!_psize) return;
     std::fill_n(y, ncols(), Vy(0));
+    if (!_psize) return;
     for (size_type i = 0u; i < _psize; ++i) {
       const v_t temp  = x[i];
       auto      v_itr = _base::val_cbegin(i);
@@ -1297,8 +1297,8 @@ class CRS
         typename std::conditional<(sizeof(Vx) > sizeof(Vy)), Vx, Vy>::type;
     using v_t = typename std::conditional<(sizeof(v1_t) > sizeof(value_type)),
                                           v1_t, value_type>::type;
-    if (!_psize) return;
     std::fill_n(y, Nrhs * ncols(), Vy(0));
+    if (!_psize) return;
     std::array<v_t, Nrhs> temp;
     for (size_type i = 0u; i < _psize; ++i) {
       for (size_type k(0); k < Nrhs; ++k) temp[k] = x[i * Nrhs + k];
-- 
2.43.0


From 93a0f6d346789ee6e2653e0da45e98778f10b3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:24 +0000
Subject: [PATCH 25/66] fix: reject matrices with too short arrays before they
 are read

---
 src/hif/builder.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index 8c18730..ecfc433 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -309,6 +309,8 @@ class HIF {
     AA.resize(A.nrows(), A.ncols());
     // check index base
     if (A.nrows()) {
+      hif_error_if(A.ind_start().size() <= A.primary_size(),
+                   "invalid length of the index start array");
       if (A.ind_start()[0] == indptr_type(0)) {
         // 0-based, shallow copy
         AA.ind_start() = iparray_type(
@@ -328,6 +330,8 @@ class HIF {
       } else
         hif_error("only {0,1}-based compressed sparse matrices are supported!");
     }
+    hif_error_if(A.inds().size() < A.nnz() || A.vals().size() < A.nnz(),
+                 "inconsistent lengths of the index and value arrays");
     // check value type consistency
     if (std::is_same<value_type, typename CsType::value_type>::value)
       AA.vals() = array_type(A.nnz(), (value_type *)A.vals().data(), true);
@@ -339,7 +343,7 @@ class HIF {
       AA.vals().resize(A.nnz());
       hif_error_if(AA.vals().status() == DATA_UNDEF,
                    "memory allocation failed");
-      std::copy(A.vals().cbegin(), A.vals().cend(), AA.vals().begin());
+      std::copy_n(A.vals().cbegin(), A.nnz(), AA.vals().begin());
     }
     // check validity of the input system
     if (params.check) {
-- 
2.43.0


From b1612e53f876861cb198250e33e1eb0c1e8ba7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:24 +0000
Subject: [PATCH 26/66] fix: a failed factorization does not leave an
 incomplete hierarchy

---
 src/hif/builder.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index ecfc433..0bd4d94 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -354,12 +354,17 @@ class HIF {
 
     // create size references for dropping
     iarray_type row_sizes, col_sizes;
-    if (hif_verbose(FAC, params))
-      _factorize_kernel(AA, m0, params, row_sizes, col_sizes, Crout_cout,
-                        schur_threads);
-    else
-      _factorize_kernel(AA, m0, params, row_sizes, col_sizes, Crout_cout_dummy,
-                        schur_threads);
+    try {
+      if (hif_verbose(FAC, params))
+        _factorize_kernel(AA, m0, params, row_sizes, col_sizes, Crout_cout,
+                          schur_threads);
+      else
+        _factorize_kernel(AA, m0, params, row_sizes, col_sizes,
+                          Crout_cout_dummy, schur_threads);
+    } catch (...) {
+      _precs.clear();  // do not leave an incomplete hierarchy behind
+      throw;
+    }
     t.finish();
     if (hif_verbose(INFO, params)) {
       const size_type Nnz = nnz();
-- 
2.43.0


From fc89ef86cc30ca95226eea5bc64af42b43047df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:24 +0000
Subject: [PATCH 27/66] fix: the sizes of an object that was never built are
 zero

---
 src/hif/builder.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index 0bd4d94..3a90d05 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -587,9 +587,9 @@ class HIF {
   precs_type              _precs;  ///< multilevel preconditioners
   mutable work_array_type _prec_work;
   ///< preconditioner work space for solving
-  size_type                    _stats[6];  ///< statistics
-  size_type                    _nrows;     ///< number of rows from user input
-  size_type                    _ncols;  ///< number of columns from user input
+  size_type                    _stats[6] = {};  ///< statistics
+  size_type _nrows = 0u;  ///< number of rows from user input
+  size_type _ncols = 0u;  ///< number of columns from user input
   IterRefine<boost_value_type> _ir;     ///< high-precision iterative refinement
 };
 
-- 
2.43.0


From 323eb386548acd95d169780bed86befb43afc8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 28/66] fix: reject vectors that do not fit the system before
 they are accessed

---
 src/hif/alg/IterRefine.hpp | 4 ++++
 src/hif/builder.hpp        | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/hif/alg/IterRefine.hpp b/src/hif/alg/IterRefine.hpp
index ffbe751..e8c2780 100644
--- a/src/hif/alg/IterRefine.hpp
+++ b/src/hif/alg/IterRefine.hpp
@@ -86,6 +86,8 @@ class IterRefine {
     }
     // now, allocate space
     _init(M.ncols());
+    hif_error_if(b.size() != _r.size() || x.size() != _r.size(),
+                 "unmatched sizes");
     const size_type n(b.size());                   // dimension
     std::fill(x.begin(), x.end(), value_type(0));  // init to zero
     for (size_type i(0); i < N; ++i) {
@@ -137,6 +139,8 @@ class IterRefine {
     }
     // now, allocate space
     _init(M.ncols());
+    hif_error_if(b.size() != _r.size() || x.size() != _r.size(),
+                 "unmatched sizes");
     const size_type n(b.size());                   // dimension
     std::fill(x.begin(), x.end(), value_type(0));  // init to zero
     std::copy_n(b.cbegin(), n, _r.begin());
diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index 3a90d05..f88909b 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -420,6 +420,7 @@ class HIF {
                     const size_type r = 0u) const {
     hif_error_if(empty(), "MILU-Prec is empty!");
     hif_error_if(b.size() != x.size(), "unmatched sizes");
+    hif_error_if(b.size() != _precs.front().n, "unmatched sizes");
     if (_prec_work.empty())
       _prec_work.resize(
           compute_prec_work_space(_precs.cbegin(), _precs.cend()));
@@ -445,6 +446,7 @@ class HIF {
                          const size_type r = 0u) const {
     hif_error_if(empty(), "MILU-Prec is empty!");
     hif_error_if(b.size() != x.size(), "unmatched sizes");
+    hif_error_if(b.size() != _precs.front().n, "unmatched sizes");
     hif_error_if(nsp, "multiple RHS does not support null space filter.");
     const auto nw = compute_prec_work_space(_precs.cbegin(), _precs.cend());
     if (_prec_work.size() < nw * Nrhs) _prec_work.resize(nw * Nrhs);
@@ -513,6 +515,7 @@ class HIF {
                         const size_type r = 0u) const {
     hif_error_if(empty(), "MILU-Prec is empty!");
     hif_error_if(y.size() != x.size(), "unmatched sizes");
+    hif_error_if(x.size() != _precs.front().n, "unmatched sizes");
     if (_prec_work.empty())
       _prec_work.resize(
           compute_prec_work_space(_precs.cbegin(), _precs.cend()));
-- 
2.43.0


From a60dae19ddd3f36b7c26a0f5477f62304bd26f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:00 +0000
Subject: [PATCH 29/66] fix: offsets of another integer type are converted, not
 reinterpreted

---
 src/hif/builder.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index f88909b..55c1bf1 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -270,9 +270,6 @@ class HIF {
 
     static_assert(sizeof(index_type) == sizeof(typename CsType::index_type),
                   "inconsistent index types");
-    static_assert(
-        sizeof(index_type) == sizeof(typename CsType::index_type),
-        "inconsistent indptr types");
 
     // print introduction
     if (hif_verbose(INFO, params)) {
@@ -311,13 +308,20 @@ class HIF {
     if (A.nrows()) {
       hif_error_if(A.ind_start().size() <= A.primary_size(),
                    "invalid length of the index start array");
-      if (A.ind_start()[0] == indptr_type(0)) {
+      if (A.ind_start()[0] == typename CsType::indptr_type(0)) {
         // 0-based, shallow copy
-        AA.ind_start() = iparray_type(
-            A.ind_start().size(), (indptr_type *)A.ind_start().data(), true);
+        if (std::is_same<indptr_type, typename CsType::indptr_type>::value)
+          AA.ind_start() = iparray_type(
+              A.ind_start().size(), (indptr_type *)A.ind_start().data(), true);
+        else {
+          // different offset types, convert
+          AA.ind_start().resize(A.ind_start().size());
+          std::copy(A.ind_start().cbegin(), A.ind_start().cend(),
+                    AA.ind_start().begin());
+        }
         AA.inds() =
             iarray_type(A.inds().size(), (index_type *)A.inds().data(), true);
-      } else if (A.ind_start()[0] == indptr_type(1)) {
+      } else if (A.ind_start()[0] == typename CsType::indptr_type(1)) {
         // 1-based
         if (hif_verbose(INFO, params))
           hif_info("converting to 0-based compressed matrix...");
-- 
2.43.0


From 165e85bf16f72a3968bc3f828b3d77b9c3f04dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:00 +0000
Subject: [PATCH 30/66] fix: the Hif alias respects its index type

---
 src/hif/builder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index 55c1bf1..508223d 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -606,7 +606,7 @@ typedef HIF<double, int> DefaultHIF;
 
 template <class ValueType, class IndexType = int, class IndPtrType = std::ptrdiff_t,
           template <class> class UserDenseFactor = DefaultDenseSolver>
-using Hif = HIF<ValueType, int, IndPtrType, UserDenseFactor>;
+using Hif = HIF<ValueType, IndexType, IndPtrType, UserDenseFactor>;
 
 /*!
  * @}
-- 
2.43.0


From 9bd484571679d9b0e5d8047399e653533210e685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 31/66] fix: a new factorization never reuses the work space of
 an earlier one

---
 src/hif/builder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index 508223d..70702c1 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -294,9 +294,9 @@ class HIF {
       if (hif_verbose(INFO, params))
         hif_info("multilevel precs are not empty, wipe previous results first");
       _precs.clear();
-      // also clear the previous buffer
-      _prec_work.resize(0);
     }
+    // also clear the previous buffer, which can outlive the levels
+    _prec_work.resize(0);
     const int schur_threads = mt::get_nthreads(params.threads);
     // initialize statistics
     for (size_type i(0); i < sizeof(_stats) / sizeof(size_type); ++i)
-- 
2.43.0


From 985ca4701ebc2ae2a0a8347ea7c8daa613ac4a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 32/66] fix: reject a leading symmetric block larger than the
 matrix

---
 src/hif/builder.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index 70702c1..44b456d 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -537,6 +537,9 @@ class HIF {
                                 const bool           must_pivot    = false) {
     hif_error_if(A.nrows() != A.ncols(),
                  "Currently only squared systems are supported");
+    hif_error_if(m0 > A.nrows(),
+                 "the leading symmetric block size %zd exceeds the size %zd", m0,
+                 A.nrows());
     size_type       m(m0);  // init m
     size_type       N;      // reference size
     const size_type cur_level = levels() + 1;
-- 
2.43.0


From 4d808d9282148dec655bb93c4adcd954db4c375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 33/66] fix: wrapping user arrays rejects negative indices

---
 src/hif/ds/CompressedStorage.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index a3ce317..f121669 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1799,9 +1799,9 @@ inline CRS<ValueType, IndexType> wrap_const_crs(
         hif_error("%zd row is not sorted, the checking failed at entry %td", i,
                   itr - first);
       else
-        hif_error_if(size_type(*(last - 1)) >= mat.ncols(),
-                     "%zd exceeds column size %zd", size_type(*(last - 1)),
-                     mat.ncols());
+        hif_error_if(*first < 0 || size_type(*(last - 1)) >= mat.ncols(),
+                     "[%zd,%zd] exceeds column size %zd", size_type(*first),
+                     size_type(*(last - 1)), mat.ncols());
     }
   }
   return mat;
@@ -2702,9 +2702,9 @@ inline CCS<ValueType, IndexType, IndPtrType> wrap_const_ccs(
         hif_error("%zd row is not sorted, the checking failed at entry %td", i,
                   itr - first);
       else
-        hif_error_if(size_type(*(last - 1)) >= mat.nrows(),
-                     "%zd exceeds row size %zd", size_type(*(last - 1)),
-                     mat.nrows());
+        hif_error_if(*first < 0 || size_type(*(last - 1)) >= mat.nrows(),
+                     "[%zd,%zd] exceeds row size %zd", size_type(*first),
+                     size_type(*(last - 1)), mat.nrows());
     }
   }
   return mat;
-- 
2.43.0


From 995f0c47328912ff27b13be08f89cfb25d736caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 34/66] fix: wrapping user rows keeps the offset type

---
 src/hif/ds/CompressedStorage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index f121669..ba1dd5a 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1764,7 +1764,7 @@ using CSR = CRS<ValueType, IndexType, IndPtrType>;
 /// \warning It's the user's responsibility to maintain the external data
 /// \ingroup ds
 template <class ValueType, class IndexType, class IndPtrType>
-inline CRS<ValueType, IndexType> wrap_const_crs(
+inline CRS<ValueType, IndexType, IndPtrType> wrap_const_crs(
     const typename CRS<ValueType, IndexType, IndPtrType>::size_type nrows,
     const typename CRS<ValueType, IndexType, IndPtrType>::size_type ncols,
     const IndPtrType *row_start, const IndexType *col_ind,
-- 
2.43.0


From ac8604d2bf6c2e3242550b3cd8334ca4c6fa3ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 35/66] fix: pruning handles 1-based offsets

---
 src/hif/ds/CompressedStorage.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index ba1dd5a..5704a5c 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -674,6 +674,7 @@ class CompressedStorage {
       size_type       j(0);
       auto            v_itr_first = _vals.cbegin();
       auto            i_itr_first = _indices.cbegin();
+      const auto      base = _ind_start[0];  // 0 or 1
       size_type       pos(0);
       // work space for determine thresholds for the orthogonal direction, i.e.,
       // column for CRS and row for CCS. n+1 to potentially handle 1-based
@@ -688,7 +689,7 @@ class CompressedStorage {
         const size_type j_bak(j);
         auto            v_itr = v_itr_first + pos;
         auto            i_itr = i_itr_first + pos;
-        const auto      lnnz  = _ind_start[i + 1] - pos;
+        const auto      lnnz  = _ind_start[i + 1] - base - pos;
         if (lnnz) {
           auto              last = v_itr + lnnz;
           const scalar_type thres =
@@ -705,7 +706,7 @@ class CompressedStorage {
             }
         }
         // update position
-        pos               = _ind_start[i + 1];
+        pos               = _ind_start[i + 1] - base;
         _ind_start[i + 1] = _ind_start[i] + (j - j_bak);
       }
       const size_type elms = nz - j;
-- 
2.43.0


From d8379c1c59e8d95ba017a0940cef2f64079ee822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:16 +0000
Subject: [PATCH 36/66] fix: coordinates without entries give a matrix without
 entries

---
 src/hif/utils/coo2compress.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hif/utils/coo2compress.hpp b/src/hif/utils/coo2compress.hpp
index 1d52102..d61a690 100644
--- a/src/hif/utils/coo2compress.hpp
+++ b/src/hif/utils/coo2compress.hpp
@@ -76,9 +76,10 @@ inline void convert_coo2cs(const std::size_t       primary_size,
 
   // assemble to compressed storage
   indices.resize(nnz);
-  hif_error_if(indices.status() == DATA_UNDEF, "memory allocation failed");
+  hif_error_if(nnz && indices.status() == DATA_UNDEF,
+               "memory allocation failed");
   vals.resize(nnz);
-  hif_error_if(vals.status() == DATA_UNDEF, "memory allocation failed");
+  hif_error_if(nnz && vals.status() == DATA_UNDEF, "memory allocation failed");
   for (size_type i(0); i < nnz; ++i) {
     const auto pos = ind_start[pidx[i]];
     indices[pos]   = sids[i];
-- 
2.43.0


From e81f08b8675e8e3b386e16b429864a09fd2eab36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:16 +0000
Subject: [PATCH 37/66] fix: products of an empty dimension with several
 vectors are zero

---
 src/hif/ds/CompressedStorage.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 5704a5c..623f292 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1222,6 +1222,8 @@ class CRS
                  "matrix vector multiplication unmatched sizes!");
     if (x.size() && y.size())
       multiply_mrhs_nt_low<Nrhs>(x[0].data(), y[0].data());
+    else
+      for (auto &yi : y) yi.fill(OutType(0));
   }
 
   /// \brief matrix vector multiplication for MT (CRS only)
@@ -1244,6 +1246,8 @@ class CRS
                  "out-of-bound pass-of-end range detected");
     if (x.size() && y.size())
       multiply_mrhs_nt_low<Nrhs>(x[0].data(), istart, len, y[0].data());
+    else
+      for (size_type i(0); i < len; ++i) y[istart + i].fill(OutType(0));
   }
 
   /// \brief matrix transpose vector multiplication with different type
@@ -1327,6 +1331,8 @@ class CRS
                  "T(matrix) vector multiplication unmatched sizes!");
     if (x.size() && y.size())
       multiply_mrhs_t_low<Nrhs>(x[0].data(), y[0].data());
+    else
+      for (auto &yi : y) yi.fill(OutType(0));
   }
 
   /// \brief matrix vector multiplication
@@ -2156,6 +2162,8 @@ class CCS
                  "matrix vector unmatched sizes!");
     if (x.size() && y.size())
       multiply_mrhs_nt_low<Nrhs>(x[0].data(), y[0].data());
+    else
+      for (auto &yi : y) yi.fill(OutType(0));
   }
 
   /// \brief matrix transpose vector multiplication with different type
@@ -2239,6 +2247,8 @@ class CCS
                  "T(matrix) vector unmatched sizes!");
     if (x.size() && y.size())
       multiply_mrhs_t_low<Nrhs>(x[0].data(), y[0].data());
+    else
+      for (auto &yi : y) yi.fill(OutType(0));
   }
 
   /// \brief matrix vector multiplication
-- 
2.43.0


From 905683a59d6e4e35df79ad5779f9d7755d9f3833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:04 +0000
Subject: [PATCH 38/66] fix: permuting accepts an empty block

---
 src/hif/ds/CompressedStorage.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 623f292..0d3c8a0 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -563,7 +563,8 @@ class CompressedStorage {
     const size_type psize = OnlyLeading ? leading : m;
     if (DoValue) {
       buf.resize(OnlyLeading ? leading : n);
-      hif_error_if(buf.status() == DATA_UNDEF, "memory allocation failed");
+      hif_error_if((OnlyLeading ? leading : n) && buf.status() == DATA_UNDEF,
+                   "memory allocation failed");
     }
     indptr.resize(psize + 1);
     hif_error_if(indptr.status() == DATA_UNDEF, "memory allocation failed");
-- 
2.43.0


From 339f05a4f7ac74898fc8c7ea5c17415f10edfb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:12 +0000
Subject: [PATCH 39/66] fix: dense factorizations keep the given block of the
 same type

---
 src/hif/small_scale/LUP.hpp   | 4 +++-
 src/hif/small_scale/QRCP.hpp  | 4 +++-
 src/hif/small_scale/SYEIG.hpp | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/hif/small_scale/LUP.hpp b/src/hif/small_scale/LUP.hpp
index 0c7d93e..c6337e7 100644
--- a/src/hif/small_scale/LUP.hpp
+++ b/src/hif/small_scale/LUP.hpp
@@ -91,7 +91,9 @@ class LUP {
   /// \tparam T value type
   template <class T>
   inline void set_matrix(const DenseMatrix<T> &mat) {
-    _mat = dense_type(mat);
+    // copy the entries, which are shared by the copy constructor
+    _mat.resize(mat.nrows(), mat.ncols());
+    std::copy(mat.array().cbegin(), mat.array().cend(), _mat.array().begin());
     _mat_backup.resize(_mat.nrows(), _mat.ncols());
     std::copy(_mat.array().cbegin(), _mat.array().cend(),
               _mat_backup.array().begin());
diff --git a/src/hif/small_scale/QRCP.hpp b/src/hif/small_scale/QRCP.hpp
index ea5fb86..26bf0d1 100644
--- a/src/hif/small_scale/QRCP.hpp
+++ b/src/hif/small_scale/QRCP.hpp
@@ -96,7 +96,9 @@ class QRCP {
   /// \tparam T value type
   template <class T>
   inline void set_matrix(const DenseMatrix<T> &mat) {
-    _mat = dense_type(mat);
+    // copy the entries, which are shared by the copy constructor
+    _mat.resize(mat.nrows(), mat.ncols());
+    std::copy(mat.array().cbegin(), mat.array().cend(), _mat.array().begin());
     _mat_backup.resize(_mat.nrows(), _mat.ncols());
     std::copy(_mat.array().cbegin(), _mat.array().cend(),
               _mat_backup.array().begin());
diff --git a/src/hif/small_scale/SYEIG.hpp b/src/hif/small_scale/SYEIG.hpp
index 4509b10..a53dd57 100644
--- a/src/hif/small_scale/SYEIG.hpp
+++ b/src/hif/small_scale/SYEIG.hpp
@@ -96,7 +96,9 @@ class SYEIG {
   /// \tparam T value type
   template <class T>
   inline void set_matrix(const DenseMatrix<T> &mat) {
-    _mat = dense_type(mat);
+    // copy the entries, which are shared by the copy constructor
+    _mat.resize(mat.nrows(), mat.ncols());
+    std::copy(mat.array().cbegin(), mat.array().cend(), _mat.array().begin());
     _mat_backup.resize(_mat.nrows(), _mat.ncols());
     std::copy(_mat.array().cbegin(), _mat.array().cend(),
               _mat_backup.array().begin());
-- 
2.43.0


From ff9667d95373e518fe32eece5b4d86ff936d6b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:12 +0000
Subject: [PATCH 40/66] fix: transposed solves with LU are with the conjugate
 transpose

---
 src/hif/small_scale/LUP.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/small_scale/LUP.hpp b/src/hif/small_scale/LUP.hpp
index c6337e7..fff0b90 100644
--- a/src/hif/small_scale/LUP.hpp
+++ b/src/hif/small_scale/LUP.hpp
@@ -142,7 +142,7 @@ class LUP {
         "either the matrix is not set or the factorization has not yet done!");
     hif_error_if(x.size() != _mat.nrows(),
                  "unmatched sizes between system and rhs");
-    if (lapack_kernel::getrs(_mat, _ipiv, x, tran ? 'T' : 'N') < 0)
+    if (lapack_kernel::getrs(_mat, _ipiv, x, tran ? 'C' : 'N') < 0)
       hif_error("GETRS returned negative info!");
   }
 
@@ -168,7 +168,7 @@ class LUP {
     _mrhs.resize(x.size(), Nrhs);
     for (size_type j = 0; j < Nrhs; ++j)
       for (size_type i(0); i < x.size(); ++i) _mrhs(i, j) = x[i][j];
-    if (lapack_kernel::getrs(_mat, _ipiv, _mrhs, tran ? 'T' : 'N') < 0)
+    if (lapack_kernel::getrs(_mat, _ipiv, _mrhs, tran ? 'C' : 'N') < 0)
       hif_error("GETRS returned negative info!");
     for (size_type j = 0; j < Nrhs; ++j)
       for (size_type i(0); i < x.size(); ++i) x[i][j] = _mrhs(i, j);
-- 
2.43.0


From 74628ce6505f5d0594eef0eedc729236f1267f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:31 +0000
Subject: [PATCH 41/66] fix: preprocessing of a block without nonzeros keeps
 the indices of the input

---
 src/hif/pre/EqlDriver.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/hif/pre/EqlDriver.hpp b/src/hif/pre/EqlDriver.hpp
index 9628de2..0c7e72b 100644
--- a/src/hif/pre/EqlDriver.hpp
+++ b/src/hif/pre/EqlDriver.hpp
@@ -78,11 +78,9 @@ class EqlDriver {
     hif_assert(t.size() >= n, "invalid T column scaling size");
 
     if (!nnz) {
-      // nothing to match nor to scale
-      for (size_type i(0); i < n; ++i) {
-        p[i] = q[i] = i;
-        s[i] = t[i] = scalar_type(1);
-      }
+      // nothing to match nor to scale, only advance the indices like below
+      scale_eye(B, s, t);
+      for (size_type i(0); i < n; ++i) p[i] = q[i] = i;
       return;
     }
 
-- 
2.43.0


From 05772fa6017ce90b45f14960d239b5049564e585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:53 +0000
Subject: [PATCH 42/66] fix: matching of columns with many equally good rows
 overwrote its list of rows

---
 src/hif/pre/equilibrate.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/hif/pre/equilibrate.hpp b/src/hif/pre/equilibrate.hpp
index 035f476..e9b8ed0 100644
--- a/src/hif/pre/equilibrate.hpp
+++ b/src/hif/pre/equilibrate.hpp
@@ -541,16 +541,13 @@ inline void kernel(const _Integer n, const _Integer *ip, const _Index *irn,
       } else {
         if (dnew < dmin_) dmin_ = dnew;
         d__[i__] = dnew;
-        ++qlen;
-        q[qlen] = k;
       }
     }
-    // initialize heap q and q2 with rows held in q(1:qlen)
-    const _Integer kkstop = qlen;
-    qlen                  = 0;
-    for (kk = 1; kk <= kkstop; ++kk) {
-      k   = q[kk];
+    // initialize heap q and q2 with the matched rows of which the costs were
+    // set above (a list of them in q could be overwritten by q2)
+    for (k = ip[j]; k <= kstop; ++k) {
       i__ = irn[k];
+      if (iperm[i__] == 0 || d__[i__] == rinf) continue;
       if (csp <= d__[i__]) {
         d__[i__] = rinf;
         continue;
-- 
2.43.0


From 53a1ee3f306c7b7ecf91d682558e63c47e0eab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:19 +0000
Subject: [PATCH 43/66] fix: reading options from a stream skipped the pivoting
 option

---
 src/hif/Options.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/Options.h b/src/hif/Options.h
index ffb8550..66ebf69 100644
--- a/src/hif/Options.h
+++ b/src/hif/Options.h
@@ -568,8 +568,8 @@ inline InStream &operator>>(InStream &in_str, hif::Options &opt) {
       opt.alpha_U >> opt.rho >> opt.c_d >> opt.c_h >> opt.N >> opt.verbose >>
       opt.rf_par >> opt.reorder >> opt.spd >> opt.check >> opt.pre_scale >>
       opt.symm_pre_lvls >> opt.threads >> opt.mumps_blr >> opt.fat_schur_1st >>
-      opt.rrqr_cond >> opt.gamma >> opt.beta >> opt.is_symm >> opt.no_pre >>
-      opt.nzp_thres >> opt.dense_thres;
+      opt.rrqr_cond >> opt.pivot >> opt.gamma >> opt.beta >> opt.is_symm >>
+      opt.no_pre >> opt.nzp_thres >> opt.dense_thres;
   return in_str;
 }
 
-- 
2.43.0


From e1b3b0936734c10d95f2ee148f725710e51833e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:19 +0000
Subject: [PATCH 44/66] fix: the name of the verbose levels left out info next
 to warning

---
 src/hif/Options.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hif/Options.h b/src/hif/Options.h
index 66ebf69..4733433 100644
--- a/src/hif/Options.h
+++ b/src/hif/Options.h
@@ -601,7 +601,12 @@ inline std::string hif::get_verbose(const hif::Options &opt) {
     name = "none";
   else {
     if (hif_verbose(WARN, opt)) name = "warning";
-    else if (hif_verbose(INFO, opt)) name = "info";
+    if (hif_verbose(INFO, opt)) {
+      if (name != "")
+        name += ",info";
+      else
+        name = "info";
+    }
     if (hif_verbose(PRE, opt)) {
       if (name != "")
         name += ",pre";
-- 
2.43.0


From 3288c46f3d047cedfa18831a26e2122c4673aade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:19 +0000
Subject: [PATCH 45/66] fix: augmented structures can be built from a matrix of
 the other or the same kind

---
 src/hif/ds/AugmentedStorage.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/AugmentedStorage.hpp b/src/hif/ds/AugmentedStorage.hpp
index 9750c0f..2ad8902 100644
--- a/src/hif/ds/AugmentedStorage.hpp
+++ b/src/hif/ds/AugmentedStorage.hpp
@@ -452,7 +452,7 @@ class AugCRS : public CrsType,
     hif_error_if(nrows() + 1u != crs_type::row_start().size(),
                  "row-start array size (%zd) does not agree with nrows (%zd)",
                  crs_type::row_start().size(), nrows());
-    hif_error_if(crs_type::nnz() != col_ind.size(), "inconsistent nnz");
+    hif_error_if(crs_type::nnz() != col_ind().size(), "inconsistent nnz");
     _base::_build_aug(ncols(), crs_type::row_start(), col_ind());
   }
 
@@ -821,7 +821,7 @@ class AugCCS : public CcsType,
 
   /// \brief build augmented data structure based on mature CCS
   /// \param[in] ccs temp CCS system
-  inline void build_aug(crs_type &&ccs) {
+  inline void build_aug(ccs_type &&ccs) {
     ccs_type::operator=(ccs);
     hif_error_if(ccs.status() == DATA_UNDEF, "undefined data input");
     hif_error_if(
-- 
2.43.0


From 71b52b38d84ff9146337396617d64f8abcb3a811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:19 +0000
Subject: [PATCH 46/66] fix: an array whose allocation failed has no size

---
 src/hif/ds/Array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/ds/Array.hpp b/src/hif/ds/Array.hpp
index 097342f..bcfcd80 100644
--- a/src/hif/ds/Array.hpp
+++ b/src/hif/ds/Array.hpp
@@ -154,6 +154,7 @@ class Array {
   /// result, you cannot \ref resize and \ref reserve data.
   Array(const size_type n, pointer data, bool wrap = false) {
     _counts = new _RefCount();
+    _size = _cap = n;
     if (!wrap) {
       _data = new (std::nothrow) value_type[n];
       // handle overflow
@@ -168,7 +169,6 @@ class Array {
       _data   = data;
       _status = DATA_WRAP;
     }
-    _size = _cap = n;
   }
 
   /// \brief constructor for copying a foreign array, useful in type conversion
-- 
2.43.0


From 275a26959914a9e17c7cf7c8114b71a816427a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:19 +0000
Subject: [PATCH 47/66] fix: an array that cannot grow is empty instead of
 pointing to released memory

---
 src/hif/ds/Array.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/Array.hpp b/src/hif/ds/Array.hpp
index bcfcd80..68a5328 100644
--- a/src/hif/ds/Array.hpp
+++ b/src/hif/ds/Array.hpp
@@ -361,7 +361,11 @@ class Array {
     if (!data) {
       // call destructor
       this->~Array();
-      _counts = new _RefCount();
+      // NOTE what the destructor wrote to the members is gone with it
+      _data = nullptr;
+      _size = _cap = 0u;
+      _status      = DATA_UNDEF;
+      _counts      = new _RefCount();
       return;
     }
     if (presv) std::copy_n(_data, _size, data);
@@ -387,7 +391,11 @@ class Array {
     if (!data) {
       // call destructor
       this->~Array();
-      _counts = new _RefCount();
+      // NOTE what the destructor wrote to the members is gone with it
+      _data = nullptr;
+      _size = _cap = 0u;
+      _status      = DATA_UNDEF;
+      _counts      = new _RefCount();
       return;
     }
     std::copy_n(_data, _size, data);
-- 
2.43.0


From e8c306567fa6ce8bb20b6fc97244ae2ba71dc458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:19 +0000
Subject: [PATCH 48/66] fix: an empty matrix handle has no nonzeros

---
 libhifir/src/libhifir.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index d59d310..01cdacb 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -335,7 +335,8 @@ size_t lhfdGetMatrixSize(const LhfdMatrixHdl mat) {
 
 // get nnz
 size_t lhfdGetMatrixNnz(const LhfdMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
@@ -553,7 +554,8 @@ size_t lhfsGetMatrixSize(const LhfsMatrixHdl mat) {
 
 // get nnz
 size_t lhfsGetMatrixNnz(const LhfsMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
@@ -773,7 +775,8 @@ size_t lhfzGetMatrixSize(const LhfzMatrixHdl mat) {
 
 // get nnz
 size_t lhfzGetMatrixNnz(const LhfzMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
@@ -998,7 +1001,8 @@ size_t lhfcGetMatrixSize(const LhfcMatrixHdl mat) {
 
 // get nnz
 size_t lhfcGetMatrixNnz(const LhfcMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
-- 
2.43.0


From 85fbd5f60f277a70efc3083058946e51865b0be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:19 +0000
Subject: [PATCH 49/66] fix: lhfcCreate checks whether it could create the
 preconditioner

---
 libhifir/src/libhifir.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 01cdacb..08eba88 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -1053,6 +1053,10 @@ LhfcHifHdl lhfcCreate(const LhfcMatrixHdl A, const LhfcMatrixHdl S,
   LhfcHifHdl M = (LhfcHifHdl)std::malloc(sizeof(LhfcHif));
   if (!M) return nullptr;
   M->M = new (std::nothrow) hif::HIF<std::complex<float>, LhfInt, LhfIndPtr>();
+  if (!M->M) {
+    std::free(M);
+    return nullptr;
+  }
   const auto status = lhfcSetup(M, A, S, params);
   if (status == LHF_HIFIR_ERROR) {
     lhfcDestroy(M);
-- 
2.43.0


From d6d75fe0baa27c405e7ad421b36431086cda05a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:19 +0000
Subject: [PATCH 50/66] fix: lhf?Apply uses the given rank without refinement
 and in multiplications

---
 libhifir/src/libhifir.cpp | 44 +++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 08eba88..b55e51a 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -147,25 +147,25 @@ static inline void factorize(PrecType &M, const MatHdlType mat,
 // solve implementation
 template <class PrecType, class ValueType>
 static inline void solve(PrecType &M, const ValueType *b, ValueType *x,
-                         const bool trans = false) {
+                         const bool trans = false, const int rank = 0) {
   using array_t              = hif::Array<ValueType>;
   static constexpr bool WRAP = true;
 
   const array_t rhs(M.nrows(), (ValueType *)b, WRAP);
   array_t       lhs(M.nrows(), x, WRAP);
-  M.solve(rhs, lhs, trans);
+  M.solve(rhs, lhs, trans, rank);
 }
 
 // multiplication implementation
 template <class PrecType, class ValueType>
 static inline void mmultiply(PrecType &M, const ValueType *b, ValueType *x,
-                             const bool trans = false) {
+                             const bool trans = false, const int rank = 0) {
   using array_t              = hif::Array<ValueType>;
   static constexpr bool WRAP = true;
 
   const array_t rhs(M.nrows(), (ValueType *)b, WRAP);
   array_t       lhs(M.nrows(), x, WRAP);
-  M.mmultiply(rhs, lhs, trans);
+  M.mmultiply(rhs, lhs, trans, rank);
 }
 
 template <class PrecType, class MatHdlType, class ValueType>
@@ -453,13 +453,13 @@ LhfStatus lhfdApply(const LhfdHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = ((op == LHF_S || op == LHF_SH) && nirs > 1) ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
-        libhifir_impl::mmultiply(*hif->M, b, x, trans);
+        libhifir_impl::mmultiply(*hif->M, b, x, trans, rnk);
       else
-        libhifir_impl::solve(*hif->M, b, x, trans);
+        libhifir_impl::solve(*hif->M, b, x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -674,13 +674,13 @@ LhfStatus lhfsApply(const LhfsHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = ((op == LHF_S || op == LHF_SH) && nirs > 1) ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
-        libhifir_impl::mmultiply(*hif->M, b, x, trans);
+        libhifir_impl::mmultiply(*hif->M, b, x, trans, rnk);
       else
-        libhifir_impl::solve(*hif->M, b, x, trans);
+        libhifir_impl::solve(*hif->M, b, x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -895,15 +895,15 @@ LhfStatus lhfzApply(const LhfzHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = ((op == LHF_S || op == LHF_SH) && nirs > 1) ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
         libhifir_impl::mmultiply(*hif->M, (const std::complex<double> *)b,
-                                 (std::complex<double> *)x, trans);
+                                 (std::complex<double> *)x, trans, rnk);
       else
         libhifir_impl::solve(*hif->M, (const std::complex<double> *)b,
-                             (std::complex<double> *)x, trans);
+                             (std::complex<double> *)x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -1122,15 +1122,15 @@ LhfStatus lhfcApply(const LhfcHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = ((op == LHF_S || op == LHF_SH) && nirs > 1) ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
         libhifir_impl::mmultiply(*hif->M, (const std::complex<float> *)b,
-                                 (std::complex<float> *)x, trans);
+                                 (std::complex<float> *)x, trans, rnk);
       else
         libhifir_impl::solve(*hif->M, (const std::complex<float> *)b,
-                             (std::complex<float> *)x, trans);
+                             (std::complex<float> *)x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -1205,13 +1205,13 @@ LhfStatus lhfsdApply(const LhfsHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = ((op == LHF_S || op == LHF_SH) && nirs > 1) ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
-        libhifir_impl::mmultiply(*hif->M, b, x, trans);
+        libhifir_impl::mmultiply(*hif->M, b, x, trans, rnk);
       else
-        libhifir_impl::solve(*hif->M, b, x, trans);
+        libhifir_impl::solve(*hif->M, b, x, trans, rnk);
     } else {
       // Ad not A
       _LHF_CANNOT_ACCEPT_NULL(hif->Ad);
@@ -1255,15 +1255,15 @@ LhfStatus lhfczApply(const LhfcHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = ((op == LHF_S || op == LHF_SH) && nirs > 1) ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
         libhifir_impl::mmultiply(*hif->M, (const std::complex<double> *)b,
-                                 (std::complex<double> *)x, trans);
+                                 (std::complex<double> *)x, trans, rnk);
       else
         libhifir_impl::solve(*hif->M, (const std::complex<double> *)b,
-                             (std::complex<double> *)x, trans);
+                             (std::complex<double> *)x, trans, rnk);
     } else {
       // Az not A
       _LHF_CANNOT_ACCEPT_NULL(hif->Az);
-- 
2.43.0


From b9278c5d3dde308724e97b5780963a1c36f86359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:19 +0000
Subject: [PATCH 51/66] fix: a failed setup or update keeps the matrices that
 are in use

---
 libhifir/src/libhifir.cpp | 46 ++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index b55e51a..a3fb2f8 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -390,6 +390,7 @@ LhfdHifHdl lhfdCreate(const LhfdMatrixHdl A, const LhfdMatrixHdl S,
     std::free(M);
     return nullptr;
   }
+  M->A = nullptr;
   const auto status = lhfdSetup(M, A, S, params);
   if (status == LHF_HIFIR_ERROR) {
     lhfdDestroy(M);
@@ -411,7 +412,6 @@ LhfStatus lhfdDestroy(LhfdHifHdl hif) {
 LhfStatus lhfdSetup(LhfdHifHdl hif, const LhfdMatrixHdl A,
                     const LhfdMatrixHdl S, const double params[]) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
-  hif->A             = A ? A : S;
   LhfdMatrixHdl facA = S ? S : A;
   _LHF_CANNOT_ACCEPT_NULL(facA);
   try {
@@ -419,15 +419,17 @@ LhfStatus lhfdSetup(LhfdHifHdl hif, const LhfdMatrixHdl A,
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
+  // NOTE a failed setup must not replace the matrices in use
+  hif->A = A ? A : S;
   return LHF_SUCCESS;
 }
 
 // Update A
 LhfStatus lhfdUpdate(LhfdHifHdl hif, const LhfdMatrixHdl A) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
+  if (A && !hif->M->empty())
+    if (A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   hif->A = A;
-  if (hif->A && !hif->M->empty())
-    if (hif->A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   return LHF_SUCCESS;
 }
 
@@ -610,6 +612,8 @@ LhfsHifHdl lhfsCreate(const LhfsMatrixHdl A, const LhfsMatrixHdl S,
     std::free(M);
     return nullptr;
   }
+  M->A  = nullptr;
+  M->Ad = nullptr;
   const auto status = lhfsSetup(M, A, S, params);
   if (status == LHF_HIFIR_ERROR) {
     lhfsDestroy(M);
@@ -631,24 +635,25 @@ LhfStatus lhfsDestroy(LhfsHifHdl hif) {
 LhfStatus lhfsSetup(LhfsHifHdl hif, const LhfsMatrixHdl A,
                     const LhfsMatrixHdl S, const double params[]) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
-  hif->A             = A ? A : S;
   LhfsMatrixHdl facA = S ? S : A;
-  hif->Ad            = nullptr;
   _LHF_CANNOT_ACCEPT_NULL(facA);
   try {
     libhifir_impl::factorize(*hif->M, facA, params);
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
+  // NOTE a failed setup must not replace the matrices in use
+  hif->A  = A ? A : S;
+  hif->Ad = nullptr;
   return LHF_SUCCESS;
 }
 
 // Update A
 LhfStatus lhfsUpdate(LhfsHifHdl hif, const LhfsMatrixHdl A) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
+  if (A && !hif->M->empty())
+    if (A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   hif->A = A;
-  if (hif->A && !hif->M->empty())
-    if (hif->A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   return LHF_SUCCESS;
 }
 
@@ -831,6 +836,7 @@ LhfzHifHdl lhfzCreate(const LhfzMatrixHdl A, const LhfzMatrixHdl S,
     std::free(M);
     return nullptr;
   }
+  M->A = nullptr;
   const auto status = lhfzSetup(M, A, S, params);
   if (status == LHF_HIFIR_ERROR) {
     lhfzDestroy(M);
@@ -852,7 +858,6 @@ LhfStatus lhfzDestroy(LhfzHifHdl hif) {
 LhfStatus lhfzSetup(LhfzHifHdl hif, const LhfzMatrixHdl A,
                     const LhfzMatrixHdl S, const double params[]) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
-  hif->A             = A ? A : S;
   LhfzMatrixHdl facA = S ? S : A;
   _LHF_CANNOT_ACCEPT_NULL(facA);
   try {
@@ -860,15 +865,17 @@ LhfStatus lhfzSetup(LhfzHifHdl hif, const LhfzMatrixHdl A,
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
+  // NOTE a failed setup must not replace the matrices in use
+  hif->A = A ? A : S;
   return LHF_SUCCESS;
 }
 
 // Update A
 LhfStatus lhfzUpdate(LhfzHifHdl hif, const LhfzMatrixHdl A) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
+  if (A && !hif->M->empty())
+    if (A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   hif->A = A;
-  if (hif->A && !hif->M->empty())
-    if (hif->A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   return LHF_SUCCESS;
 }
 
@@ -1057,6 +1064,8 @@ LhfcHifHdl lhfcCreate(const LhfcMatrixHdl A, const LhfcMatrixHdl S,
     std::free(M);
     return nullptr;
   }
+  M->A  = nullptr;
+  M->Az = nullptr;
   const auto status = lhfcSetup(M, A, S, params);
   if (status == LHF_HIFIR_ERROR) {
     lhfcDestroy(M);
@@ -1078,24 +1087,25 @@ LhfStatus lhfcDestroy(LhfcHifHdl hif) {
 LhfStatus lhfcSetup(LhfcHifHdl hif, const LhfcMatrixHdl A,
                     const LhfcMatrixHdl S, const double params[]) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
-  hif->A             = A ? A : S;
   LhfcMatrixHdl facA = S ? S : A;
-  hif->Az            = nullptr;
   _LHF_CANNOT_ACCEPT_NULL(facA);
   try {
     libhifir_impl::factorize(*hif->M, facA, params);
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
+  // NOTE a failed setup must not replace the matrices in use
+  hif->A  = A ? A : S;
+  hif->Az = nullptr;
   return LHF_SUCCESS;
 }
 
 // Update A
 LhfStatus lhfcUpdate(LhfcHifHdl hif, const LhfcMatrixHdl A) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
+  if (A && !hif->M->empty())
+    if (A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   hif->A = A;
-  if (hif->A && !hif->M->empty())
-    if (hif->A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   return LHF_SUCCESS;
 }
 
@@ -1190,9 +1200,9 @@ size_t lhfcGetSchurRank(const LhfcHifHdl hif) {
 // update Ad in hif by a double-precision matrix
 LhfStatus lhfsdUpdate(LhfsHifHdl hif, LhfdMatrixHdl A) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
+  if (A && !hif->M->empty())
+    if (A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   hif->Ad = A;
-  if (hif->Ad && !hif->M->empty())
-    if (hif->Ad->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   return LHF_SUCCESS;
 }
 
@@ -1239,9 +1249,9 @@ LhfStatus lhfsdSolve(const LhfsHifHdl hif, const double *b, double *x) {
 // update Az in hif by a double-precision matrix
 LhfStatus lhfczUpdate(LhfcHifHdl hif, LhfzMatrixHdl A) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
+  if (A && !hif->M->empty())
+    if (A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   hif->Az = A;
-  if (hif->Az && !hif->M->empty())
-    if (hif->Az->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   return LHF_SUCCESS;
 }
 
-- 
2.43.0


From f966f29fddd9c9f19286d3e2104bc96aa4f3a387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:19 +0000
Subject: [PATCH 52/66] fix: lhf?ReadSparse refuses a matrix handle without
 arrays

---
 libhifir/src/libhifir.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index a3fb2f8..86701b0 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -106,6 +106,7 @@ static inline LhfStatus mm_read_sparse(const char *fname, MatHdlType mat) {
       _LHF_RETURN_FROM_HIFIR_ERROR(e);
     }
     if (A.nrows() != mat->n || A.ncols() != mat->n) return LHF_MISMATCHED_SIZES;
+    _LHF_CANNOT_ACCEPT_NULL(mat->indptr);
     std::copy(A.ind_start().cbegin(), A.ind_start().cend(), mat->indptr);
     std::copy(A.inds().cbegin(), A.inds().cend(), mat->indices);
     std::copy(A.vals().cbegin(), A.vals().cend(), mat->vals);
@@ -118,6 +119,7 @@ static inline LhfStatus mm_read_sparse(const char *fname, MatHdlType mat) {
       _LHF_RETURN_FROM_HIFIR_ERROR(e);
     }
     if (A.nrows() != mat->n || A.ncols() != mat->n) return LHF_MISMATCHED_SIZES;
+    _LHF_CANNOT_ACCEPT_NULL(mat->indptr);
     std::copy(A.ind_start().cbegin(), A.ind_start().cend(), mat->indptr);
     std::copy(A.inds().cbegin(), A.inds().cend(), mat->indices);
     std::copy(A.vals().cbegin(), A.vals().cend(), mat->vals);
-- 
2.43.0


From a19fb538ef139336df78cceb5971abaaa1f8b6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:19 +0000
Subject: [PATCH 53/66] fix: lhfQueryMmFile reports what reading the file
 gives, and errors

---
 libhifir/src/libhifir.cpp | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 86701b0..4a8b6e0 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -277,18 +277,34 @@ LhfStatus lhfQueryMmFile(const char *fname, int *is_sparse, int *is_real,
   if (!f) return LHF_NULL_OBJ;
   bool is_sparse2, is_real2;
   int  type_id;
-  // parse the first line
-  hif::internal::mm_read_firstline(f, is_sparse2, is_real2, type_id);
-  *is_sparse = is_sparse2;
-  *is_real   = is_real2;
-  (void)type_id;  // not used
-  if (is_sparse2)
-    hif::internal::mm_read_sparse_size(f, *nrows, *ncols, *nnz);
-  else {
-    *nnz = 0u;
-    hif::internal::mm_read_dense_size(f, *nrows, *ncols);
+  try {
+    // parse the first line
+    hif::internal::mm_read_firstline(f, is_sparse2, is_real2, type_id);
+    *is_sparse = is_sparse2;
+    *is_real   = is_real2;
+    if (is_sparse2)
+      hif::internal::mm_read_sparse_size(f, *nrows, *ncols, *nnz);
+    else {
+      // only the length is reported for dense arrays
+      hif::internal::mm_read_dense_size(f, *nrows, *ncols);
+      *ncols = *nnz = 0u;
+    }
+    std::fclose(f);
+    if (is_sparse2 && type_id) {
+      // one triangle is stored, but the matrix is read with both of them
+      hif::Array<long long>            rows, cols;
+      hif::Array<double>               vals;
+      hif::Array<std::complex<double>> cvals;
+      if (is_real2)
+        hif::read_mm_sparse(fname, *nrows, *ncols, rows, cols, vals);
+      else
+        hif::read_mm_sparse(fname, *nrows, *ncols, rows, cols, cvals);
+      *nnz = rows.size();
+    }
+  } catch (const std::exception &e) {
+    // NOTE the file is closed when reading it fails
+    _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
-  std::fclose(f);
   return LHF_SUCCESS;
 }
 
-- 
2.43.0


From 7bccee10d0b9457ec1ca0cb6df61a4d9e076dbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 54/66] fix: long words in the first line of a MatrixMarket
 file overflowed the buffers

---
 src/hif/utils/io.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 44436d8..e1e4752 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -627,8 +627,11 @@ inline void mm_read_firstline(std::FILE *f, bool &is_sparse, bool &is_real,
   char storage_scheme[65];
 
   // read the first line
-  if (!std::fgets(line, 1025, f)) hif_error("unable to read the first line");
-  if (std::sscanf(line, "%s %s %s %s %s", banner, mtx, crd, data_type,
+  if (!std::fgets(line, 1025, f)) {
+    std::fclose(f);
+    hif_error("unable to read the first line");
+  }
+  if (std::sscanf(line, "%64s %64s %64s %64s %64s", banner, mtx, crd, data_type,
                   storage_scheme) != 5) {
     std::fclose(f);
     hif_error("insufficient number of tokens in the first line");
-- 
2.43.0


From d86f6ae764d6e53f098613e8463036a288550263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 55/66] fix: entries of a symmetric MatrixMarket file with only
 a diagonal were doubled by garbage

---
 src/hif/utils/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index e1e4752..7c54146 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -591,7 +591,7 @@ inline void mm_read_sparse_data(std::FILE *f, const std::size_t nnz,
       vals[index] = -vals[index - 1];
     ++index;
   }
-  if (index != nnz) {
+  if (index != rows.size()) {
     rows.resize(index);
     cols.resize(index);
     vals.resize(index);
-- 
2.43.0


From b9753eb5438c559680b7496ed12fabe62567384b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 56/66] fix: the line of sizes of a MatrixMarket file is
 validated and follows any comments

---
 src/hif/utils/io.hpp | 96 ++++++++++++++++++++------------------------
 1 file changed, 43 insertions(+), 53 deletions(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 7c54146..768f550 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -44,10 +44,14 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 #include <algorithm>
 #include <cctype>
+#include <cerrno>
 #include <complex>
 #include <cstdint>
 #include <cstdio>
+#include <cstdlib>
 #include <fstream>
+#include <limits>
+#include <string>
 #include <tuple>
 #include <type_traits>
 
@@ -687,73 +691,59 @@ inline void mm_read_firstline(std::FILE *f, bool &is_sparse, bool &is_real,
   }
 }
 
-/// \brief Internal routine to read sizes
-inline void mm_read_sparse_size(std::FILE *f, std::size_t &nrows,
-                                std::size_t &ncols, std::size_t &nnz) {
+/// \brief Internal routine to read the line of sizes
+/// \tparam N number of sizes
+/// \param[in] f file, closed if an error is raised
+/// \param[out] sizes the sizes
+template <int N>
+inline void mm_read_sizes(std::FILE *f, long long (&sizes)[N]) {
   char line[1025];
+  bool is_comment, is_blank, is_new(true);
 
-  nrows = ncols = nnz = 0u;
-
-  /* now continue scanning until you reach the end-of-comments */
+  /* continue scanning until you reach the end of comments and blank lines */
   do {
     if (!std::fgets(line, 1025, f)) {
       std::fclose(f);
       hif_error("unable to read file");
     }
-  } while (line[0] == '%');
-
-  int m, n, nz;
-  if (sscanf(line, "%d %d %d", &m, &n, &nz) == 3) {
-    nrows = m;
-    ncols = n;
-    nnz   = nz;
-    return;
-  }
-
-  int num_items_read;
-  do {
-    num_items_read = std::fscanf(f, "%d %d %d", &m, &n, &nz);
-    if (num_items_read == EOF) {
+    const std::string str(line);
+    // NOTE a line longer than the buffer is read piece by piece
+    if (is_new) is_comment = line[0] == '%';
+    is_blank = str.find_first_not_of(" \t\r\n\v\f") == std::string::npos;
+    is_new   = str.back() == '\n';
+  } while (is_comment || is_blank);
+
+  const char *pos(line);
+  for (int i(0); i < N; ++i) {
+    char *end;
+    errno    = 0;
+    sizes[i] = std::strtoll(pos, &end, 10);
+    if (end == pos || errno || sizes[i] < 0) {
       std::fclose(f);
-      hif_error("reached EOF!");
+      hif_error("invalid sizes %s", line);
     }
-  } while (num_items_read != 3);
-  nrows = m;
-  ncols = n;
-  nnz   = nz;
+    pos = end;
+  }
+}
+
+/// \brief Internal routine to read sizes
+inline void mm_read_sparse_size(std::FILE *f, std::size_t &nrows,
+                                std::size_t &ncols, std::size_t &nnz) {
+  long long sizes[3];
+  nrows = ncols = nnz = 0u;
+  mm_read_sizes(f, sizes);
+  nrows = sizes[0];
+  ncols = sizes[1];
+  nnz   = sizes[2];
 }
 
 inline void mm_read_dense_size(std::FILE *f, std::size_t &nrows,
                                std::size_t &ncols) {
-  char line[1025];
-
+  long long sizes[2];
   nrows = ncols = 0u;
-
-  /* now continue scanning until you reach the end-of-comments */
-  do {
-    if (!std::fgets(line, 1025, f)) {
-      std::fclose(f);
-      hif_error("unable to read file");
-    }
-  } while (line[0] == '%');
-
-  int m, n;
-  if (sscanf(line, "%d %d", &m, &n) == 2) {
-    nrows = m;
-    ncols = n;
-    return;
-  }
-
-  int num_items_read;
-  do {
-    num_items_read = std::fscanf(f, "%d %d", &m, &n);
-    if (num_items_read == EOF) {
-      std::fclose(f);
-      hif_error("reached EOF!");
-    }
-  } while (num_items_read != 2);
-  nrows = m;
-  ncols = n;
+  mm_read_sizes(f, sizes);
+  nrows = sizes[0];
+  ncols = sizes[1];
 }
 
 /*!
-- 
2.43.0


From cbfca15ffd5a070c84a2597ad691878a18dbc093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 57/66] fix: MatrixMarket files with invalid indices or too
 large sizes are refused

---
 src/hif/utils/io.hpp | 65 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 15 deletions(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 768f550..d813a01 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -548,7 +548,8 @@ set_imag(const double i, V &x) {
 
 /// \brief Internal routine to read sparse data
 template <int TypeID, bool IsReal, class IndexType, class ValueType>
-inline void mm_read_sparse_data(std::FILE *f, const std::size_t nnz,
+inline void mm_read_sparse_data(std::FILE *f, const std::size_t nrows,
+                                const std::size_t ncols, const std::size_t nnz,
                                 Array<IndexType> &rows, Array<IndexType> &cols,
                                 Array<ValueType> &vals) {
   // type IDs
@@ -568,16 +569,26 @@ inline void mm_read_sparse_data(std::FILE *f, const std::size_t nnz,
     vals.resize(nnz);
   }
 
+  if (nnz && (rows.status() == DATA_UNDEF || cols.status() == DATA_UNDEF ||
+              vals.status() == DATA_UNDEF)) {
+    std::fclose(f);
+    hif_error("memory allocation failed");
+  }
+
   std::size_t index(0);
-  int         r, c;
-  double      vr, vi;
+  long long   r, c;
+  double      vr, vi(0);
   for (std::size_t i(0); i < nnz; ++i) {
-    const int flag = IsReal ? std::fscanf(f, "%d %d %lg", &r, &c, &vr)
-                            : std::fscanf(f, "%d %d %lg %lg", &r, &c, &vr, &vi);
+    const int flag = IsReal ? std::fscanf(f, "%lld %lld %lg", &r, &c, &vr)
+                            : std::fscanf(f, "%lld %lld %lg %lg", &r, &c, &vr, &vi);
     if (flag != 4 - IsReal) {
       std::fclose(f);
       hif_error("insufficient objects scanned from fscanf");
     }
+    if (r < 1 || c < 1 || std::size_t(r) > nrows || std::size_t(c) > ncols) {
+      std::fclose(f);
+      hif_error("index (%lld, %lld) exceeds the matrix size", r, c);
+    }
     rows[index] = r - 1;  // to 0-based index
     cols[index] = c - 1;  // to 0-based index
     set_real(vr, vals[index]);
@@ -607,7 +618,11 @@ template <bool IsReal, class ValueType>
 inline void mm_read_vector_data(std::FILE *f, const std::size_t n,
                                 Array<ValueType> &v) {
   v.resize(n);
-  double vr, vi;
+  if (n && v.status() == DATA_UNDEF) {
+    std::fclose(f);
+    hif_error("memory allocation failed");
+  }
+  double vr, vi(0);
   for (std::size_t i(0); i < n; ++i) {
     const int flag = IsReal ? std::fscanf(f, "%lg", &vr)
                             : std::fscanf(f, "%lg %lg", &vr, &vi);
@@ -718,7 +733,9 @@ inline void mm_read_sizes(std::FILE *f, long long (&sizes)[N]) {
     char *end;
     errno    = 0;
     sizes[i] = std::strtoll(pos, &end, 10);
-    if (end == pos || errno || sizes[i] < 0) {
+    // NOTE there must be some room for computing numbers of bytes
+    if (end == pos || errno || sizes[i] < 0 ||
+        sizes[i] > (std::numeric_limits<long long>::max() >> 8)) {
       std::fclose(f);
       hif_error("invalid sizes %s", line);
     }
@@ -793,25 +810,39 @@ inline void read_mm_sparse(const char *filename, std::size_t &nrows,
   }
   std::size_t nnz;
   internal::mm_read_sparse_size(f, nrows, ncols, nnz);
+  constexpr std::size_t max_index = std::numeric_limits<IndexType>::max();
+  if (nrows > max_index || ncols > max_index ||
+      (type_id != 0 && nrows != ncols)) {
+    std::fclose(f);
+    hif_error("invalid matrix sizes (%zd, %zd)", nrows, ncols);
+  }
   // read data
   if (is_real) {
     if (type_id == 0)
-      internal::mm_read_sparse_data<0, true>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<0, true>(f, nrows, ncols, nnz, rows,
+                                             cols, vals);
     else if (type_id == 1)
-      internal::mm_read_sparse_data<1, true>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<1, true>(f, nrows, ncols, nnz, rows,
+                                             cols, vals);
     else if (type_id == 2)
-      internal::mm_read_sparse_data<2, true>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<2, true>(f, nrows, ncols, nnz, rows,
+                                             cols, vals);
     else
-      internal::mm_read_sparse_data<3, true>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<3, true>(f, nrows, ncols, nnz, rows,
+                                             cols, vals);
   } else {
     if (type_id == 0)
-      internal::mm_read_sparse_data<0, false>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<0, false>(f, nrows, ncols, nnz, rows,
+                                             cols, vals);
     else if (type_id == 1)
-      internal::mm_read_sparse_data<1, false>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<1, false>(f, nrows, ncols, nnz, rows,
+                                             cols, vals);
     else if (type_id == 2)
-      internal::mm_read_sparse_data<2, false>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<2, false>(f, nrows, ncols, nnz, rows,
+                                             cols, vals);
     else
-      internal::mm_read_sparse_data<3, false>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<3, false>(f, nrows, ncols, nnz, rows,
+                                             cols, vals);
   }
   std::fclose(f);
 }
@@ -842,6 +873,10 @@ inline void read_mm_vector(const char *filename, Array<ValueType> &v) {
   }
   std::size_t m, n;
   internal::mm_read_dense_size(f, m, n);
+  if (m && !n) {
+    std::fclose(f);
+    hif_error("the array has no column");
+  }
 
   if (is_real)
     internal::mm_read_vector_data<true>(f, m, v);
-- 
2.43.0


From a1d5833cd909d5e0b0f62b759a8dc185f96fabc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:55 +0000
Subject: [PATCH 58/66] fix: verbose levels of the C interface have the values
 that the C++ interface uses

---
 libhifir/include/libhifir.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libhifir/include/libhifir.h b/libhifir/include/libhifir.h
index c75ddde..0130426 100644
--- a/libhifir/include/libhifir.h
+++ b/libhifir/include/libhifir.h
@@ -119,11 +119,12 @@ enum {
 // verbose levels
 enum {
   LHF_VERBOSE_NULL     = 0,
-  LHF_VERBOSE_INFO     = 1,
-  LHF_VERBOSE_PRE      = 2,
-  LHF_VERBOSE_FAC      = 4,
-  LHF_VERBOSE_PRE_TIME = 8,
-  LHF_VERBOSE_MEM      = 16,
+  LHF_VERBOSE_WARN     = 1,
+  LHF_VERBOSE_INFO     = 2,
+  LHF_VERBOSE_PRE      = 4,
+  LHF_VERBOSE_FAC      = 8,
+  LHF_VERBOSE_PRE_TIME = 16,
+  LHF_VERBOSE_MEM      = 32,
 };
 
 // reordering options
-- 
2.43.0


From 16776d23e4a81f6fdb3198eadbba88d920d3c6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:55 +0000
Subject: [PATCH 59/66] fix: lhfEnableWarning and lhfDisableWarning were
 declared but did not exist

---
 libhifir/src/libhifir.cpp | 6 ++++++
 src/hif/utils/log.hpp     | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 4a8b6e0..027857d 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -222,6 +222,12 @@ void lhfGetVersions(int versions[]) {
   versions[2] = HIF_MINOR_VERSION;
 }
 
+// enable warning
+void lhfEnableWarning() { hif::warning_flag() = true; }
+
+// disable warning
+void lhfDisableWarning() { hif::warning_flag() = false; }
+
 // error message
 const char *lhfGetErrorMsg() {
   libhifir_impl::error_msgs[0] = libhifir_impl::error_msgs[1];
diff --git a/src/hif/utils/log.hpp b/src/hif/utils/log.hpp
index 1fdce93..2afcd71 100644
--- a/src/hif/utils/log.hpp
+++ b/src/hif/utils/log.hpp
@@ -74,6 +74,13 @@ inline void info(std::string msg, ...) {
   HIF_STDOUT(msg_buf.data());
 }
 
+/// \brief flag of showing warnings, which is on by default
+/// \ingroup util
+inline bool &warning_flag() {
+  static bool flag(true);
+  return flag;
+}
+
 /// \brief warning information streaming, dump to \ref HIF_STDERR
 /// \param[in] prefix prefix message, omitted if passed as \a nullptr
 /// \param[in] file filename
@@ -84,6 +91,7 @@ inline void info(std::string msg, ...) {
 /// \ingroup util
 inline void warning(const char *prefix, const char *file, const char *func,
                     const unsigned line, std::string msg, ...) {
+  if (!warning_flag()) return;
   std::vector<char> msg_buf;
   const bool        print_pre = prefix;
   _PARSE_VA(msg_buf, msg);
-- 
2.43.0


From c8a7ef9f44ed905dc9d463db19c2035e22adce1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:07 +0000
Subject: [PATCH 60/66] fix: matrix handles without arrays are refused by the C
 interface

---
 libhifir/src/libhifir.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 027857d..76f61a5 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -438,6 +438,7 @@ LhfStatus lhfdSetup(LhfdHifHdl hif, const LhfdMatrixHdl A,
   _LHF_CANNOT_ACCEPT_NULL(hif);
   LhfdMatrixHdl facA = S ? S : A;
   _LHF_CANNOT_ACCEPT_NULL(facA);
+  _LHF_CANNOT_ACCEPT_NULL(facA->indptr);
   try {
     libhifir_impl::factorize(*hif->M, facA, params);
   } catch (const std::exception &e) {
@@ -462,6 +463,7 @@ LhfStatus lhfdRefactorize(LhfdHifHdl hif, const LhfdMatrixHdl S,
                           const double params[]) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
   _LHF_CANNOT_ACCEPT_NULL(S);
+  _LHF_CANNOT_ACCEPT_NULL(S->indptr);
   try {
     libhifir_impl::factorize(*hif->M, S, params);
   } catch (const std::exception &e) {
@@ -489,6 +491,7 @@ LhfStatus lhfdApply(const LhfdHifHdl hif, const LhfOperationType op,
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
+      _LHF_CANNOT_ACCEPT_NULL(hif->A->indptr);
       libhifir_impl::hifir(*hif->M, hif->A, b, nirs, betas, trans, rnk, x,
                            ir_status);
     }
@@ -661,6 +664,7 @@ LhfStatus lhfsSetup(LhfsHifHdl hif, const LhfsMatrixHdl A,
   _LHF_CANNOT_ACCEPT_NULL(hif);
   LhfsMatrixHdl facA = S ? S : A;
   _LHF_CANNOT_ACCEPT_NULL(facA);
+  _LHF_CANNOT_ACCEPT_NULL(facA->indptr);
   try {
     libhifir_impl::factorize(*hif->M, facA, params);
   } catch (const std::exception &e) {
@@ -686,6 +690,7 @@ LhfStatus lhfsRefactorize(LhfsHifHdl hif, const LhfsMatrixHdl S,
                           const double params[]) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
   _LHF_CANNOT_ACCEPT_NULL(S);
+  _LHF_CANNOT_ACCEPT_NULL(S->indptr);
   try {
     libhifir_impl::factorize(*hif->M, S, params);
   } catch (const std::exception &e) {
@@ -713,6 +718,7 @@ LhfStatus lhfsApply(const LhfsHifHdl hif, const LhfOperationType op,
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
+      _LHF_CANNOT_ACCEPT_NULL(hif->A->indptr);
       libhifir_impl::hifir(*hif->M, hif->A, b, nirs, betas, trans, rnk, x,
                            ir_status);
     }
@@ -884,6 +890,7 @@ LhfStatus lhfzSetup(LhfzHifHdl hif, const LhfzMatrixHdl A,
   _LHF_CANNOT_ACCEPT_NULL(hif);
   LhfzMatrixHdl facA = S ? S : A;
   _LHF_CANNOT_ACCEPT_NULL(facA);
+  _LHF_CANNOT_ACCEPT_NULL(facA->indptr);
   try {
     libhifir_impl::factorize(*hif->M, facA, params);
   } catch (const std::exception &e) {
@@ -908,6 +915,7 @@ LhfStatus lhfzRefactorize(LhfzHifHdl hif, const LhfzMatrixHdl S,
                           const double params[]) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
   _LHF_CANNOT_ACCEPT_NULL(S);
+  _LHF_CANNOT_ACCEPT_NULL(S->indptr);
   try {
     libhifir_impl::factorize(*hif->M, S, params);
   } catch (const std::exception &e) {
@@ -938,6 +946,7 @@ LhfStatus lhfzApply(const LhfzHifHdl hif, const LhfOperationType op,
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
+      _LHF_CANNOT_ACCEPT_NULL(hif->A->indptr);
       libhifir_impl::hifir(*hif->M, hif->A, (const std::complex<double> *)b,
                            nirs, betas, trans, rnk, (std::complex<double> *)x,
                            ir_status);
@@ -1113,6 +1122,7 @@ LhfStatus lhfcSetup(LhfcHifHdl hif, const LhfcMatrixHdl A,
   _LHF_CANNOT_ACCEPT_NULL(hif);
   LhfcMatrixHdl facA = S ? S : A;
   _LHF_CANNOT_ACCEPT_NULL(facA);
+  _LHF_CANNOT_ACCEPT_NULL(facA->indptr);
   try {
     libhifir_impl::factorize(*hif->M, facA, params);
   } catch (const std::exception &e) {
@@ -1138,6 +1148,7 @@ LhfStatus lhfcRefactorize(LhfcHifHdl hif, const LhfcMatrixHdl S,
                           const double params[]) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
   _LHF_CANNOT_ACCEPT_NULL(S);
+  _LHF_CANNOT_ACCEPT_NULL(S->indptr);
   try {
     libhifir_impl::factorize(*hif->M, S, params);
   } catch (const std::exception &e) {
@@ -1168,6 +1179,7 @@ LhfStatus lhfcApply(const LhfcHifHdl hif, const LhfOperationType op,
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
+      _LHF_CANNOT_ACCEPT_NULL(hif->A->indptr);
       libhifir_impl::hifir(*hif->M, hif->A, (const std::complex<float> *)b,
                            nirs, betas, trans, rnk, (std::complex<float> *)x,
                            ir_status);
@@ -1250,6 +1262,7 @@ LhfStatus lhfsdApply(const LhfsHifHdl hif, const LhfOperationType op,
       // Ad not A
       _LHF_CANNOT_ACCEPT_NULL(hif->Ad);
       if (hif->M->nrows() != hif->Ad->n) return LHF_MISMATCHED_SIZES;
+      _LHF_CANNOT_ACCEPT_NULL(hif->Ad->indptr);
       libhifir_impl::hifir(*hif->M, hif->Ad, b, nirs, betas, trans, rnk, x,
                            ir_status);
     }
@@ -1302,6 +1315,7 @@ LhfStatus lhfczApply(const LhfcHifHdl hif, const LhfOperationType op,
       // Az not A
       _LHF_CANNOT_ACCEPT_NULL(hif->Az);
       if (hif->M->nrows() != hif->Az->n) return LHF_MISMATCHED_SIZES;
+      _LHF_CANNOT_ACCEPT_NULL(hif->Az->indptr);
       libhifir_impl::hifir(*hif->M, hif->Az, (const std::complex<double> *)b,
                            nirs, betas, trans, rnk, (std::complex<double> *)x,
                            ir_status);
-- 
2.43.0


From 4d8b3f103c399f5d55f5917dfbd1445286ef4334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:41 +0000
Subject: [PATCH 61/66] fix: bounded refinement refuses an empty preconditioner
 and unmatched vectors for every right-hand side

---
 src/hif/alg/IterRefine.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hif/alg/IterRefine.hpp b/src/hif/alg/IterRefine.hpp
index e8c2780..7203b11 100644
--- a/src/hif/alg/IterRefine.hpp
+++ b/src/hif/alg/IterRefine.hpp
@@ -131,6 +131,9 @@ class IterRefine {
       M.solve(b, x, tran, last_dim);
       return std::make_pair(size_type(1), -1);
     }
+    hif_error_if(M.empty(), "MILU-Prec is empty!");
+    hif_error_if(b.size() != M.ncols() || x.size() != M.ncols(),
+                 "unmatched sizes");
     // compute norm of RHS
     const double bnorm = norm2(b);
     if (bnorm == 0.0) {
@@ -139,8 +142,6 @@ class IterRefine {
     }
     // now, allocate space
     _init(M.ncols());
-    hif_error_if(b.size() != _r.size() || x.size() != _r.size(),
-                 "unmatched sizes");
     const size_type n(b.size());                   // dimension
     std::fill(x.begin(), x.end(), value_type(0));  // init to zero
     std::copy_n(b.cbegin(), n, _r.begin());
-- 
2.43.0


From c28b377efe967422cc48ac00f4f8bde59568f419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 62/66] fix: wrapping user arrays rejects decreasing offsets

---
 src/hif/ds/CompressedStorage.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 0d3c8a0..faeadb5 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1792,6 +1792,9 @@ inline CRS<ValueType, IndexType, IndPtrType> wrap_const_crs(
   if (check) {
     if (row_start[0] != 0)
       hif_error("first entry of row_start does not agree with 0.");
+    for (size_type i = 0u; i < nrows; ++i)
+      hif_error_if(row_start[i + 1] < row_start[i],
+                   "row start is decreasing at row %zd (C-based)", i);
     for (size_type i = 0u; i < nrows; ++i) {
       if (!mat.nnz_in_row(i)) {
 #ifdef HIF_DEBUG
@@ -2698,6 +2701,9 @@ inline CCS<ValueType, IndexType, IndPtrType> wrap_const_ccs(
   if (check) {
     if (col_start[0] != 0)
       hif_error("first entry of row_start does not agree with 0.");
+    for (size_type i = 0u; i < ncols; ++i)
+      hif_error_if(col_start[i + 1] < col_start[i],
+                   "column start is decreasing at column %zd (C-based)", i);
     Array<ValueType> buf;
     for (size_type i = 0u; i < ncols; ++i) {
       if (!mat.nnz_in_col(i)) {
-- 
2.43.0


From 97e2f52ad119d8b72db5c73347d51407fa996b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:35 +0000
Subject: [PATCH 63/66] fix: parallel regions divide the work among the threads
 they actually get

---
 src/hif/alg/Schur.hpp   | 15 ++++++++-------
 src/hif/utils/mt.hpp    |  9 +++++++++
 src/hif/utils/mt_mv.hpp |  8 ++++----
 3 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/hif/alg/Schur.hpp b/src/hif/alg/Schur.hpp
index 8f89701..d13d477 100644
--- a/src/hif/alg/Schur.hpp
+++ b/src/hif/alg/Schur.hpp
@@ -446,11 +446,10 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
   if (nthreads <= 3) {
 #pragma omp parallel num_threads(2) default(shared)
     do {
-      const int thread = get_thread();
-      if (thread)
+      const int thread = get_thread(), last_thread = get_team() - 1;
+      if (thread == last_thread)
         drop_L_E(ref_indptr_L, alpha_L, L_E, buf_L, ibuf_L);
-      else
-        drop_U_F(ref_indptr_U, alpha_U, U_F, buf_U, ibuf_U);
+      if (thread == 0) drop_U_F(ref_indptr_U, alpha_U, U_F, buf_U, ibuf_U);
     } while (false);  // end of parallel region for 2
     return;
   }
@@ -462,7 +461,8 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
   do {
     // determine thread id and work of partition
     const int       thread    = get_thread();
-    const auto      part      = uniform_partition(n, nthreads, thread);
+    const int       team      = get_team();
+    const auto      part      = uniform_partition(n, team, thread);
     const size_type start_idx = part.first, poe_idx = part.second;
 
     // create additional work buffer
@@ -542,7 +542,8 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
       // resize nnz arrays
       L_E.col_ind().resize(L_E.nnz());
       L_E.vals().resize(L_E.nnz());
-    } else if (thread == 1) {
+    }
+    if (thread == 1 || team == 1) {
       // U part
       auto i_itr = U_F.row_ind().begin();
       auto v_itr = U_F.vals().begin();
@@ -624,7 +625,7 @@ inline CrsType compute_Schur_simple(const ScaleArray &s, const CrsType &A,
 #pragma omp parallel num_threads(nthreads) default(shared)
   do {
     const int       thread    = get_thread();
-    const auto      part      = uniform_partition(N, nthreads, thread);
+    const auto      part      = uniform_partition(N, get_team(), thread);
     const size_type start_idx = part.first, poe_idx = part.second;
 
     // create local sparse buffer
diff --git a/src/hif/utils/mt.hpp b/src/hif/utils/mt.hpp
index a736c6c..b34f44b 100644
--- a/src/hif/utils/mt.hpp
+++ b/src/hif/utils/mt.hpp
@@ -87,6 +87,15 @@ inline int get_thread() {
 #endif
 }
 
+/// \brief get the size of the current team, which can be smaller than requested
+inline int get_team() {
+#ifdef _OPENMP
+  return omp_get_num_threads();
+#else
+  return 1;
+#endif
+}
+
 /// \brief uniform partition
 inline std::pair<std::size_t, std::size_t> uniform_partition(
     const std::size_t n, const int threads, const int thread) {
diff --git a/src/hif/utils/mt_mv.hpp b/src/hif/utils/mt_mv.hpp
index 9047317..24ac906 100644
--- a/src/hif/utils/mt_mv.hpp
+++ b/src/hif/utils/mt_mv.hpp
@@ -67,7 +67,7 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_nt(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part = uniform_partition(A.nrows(), get_team(), get_thread());
     A.multiply_nt_low(x.data(), part.first, part.second - part.first, y.data());
   } while (false);  // parallel region
 }
@@ -91,7 +91,7 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_nt_low(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part = uniform_partition(A.nrows(), get_team(), get_thread());
     A.multiply_nt_low(x, part.first, part.second - part.first, y);
   } while (false);  // parallel region
 }
@@ -142,7 +142,7 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_mrhs_nt(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part = uniform_partition(A.nrows(), get_team(), get_thread());
     A.template multiply_mrhs_nt_low<Nrhs>(x[0].data(), part.first,
                                  part.second - part.first, y[0].data());
   } while (false);  // parallel region
@@ -169,7 +169,7 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_mrhs_nt_low(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part = uniform_partition(A.nrows(), get_team(), get_thread());
     A.template multiply_mrhs_nt_low<Nrhs>(x, part.first, part.second - part.first, y);
   } while (false);  // parallel region
 }
-- 
2.43.0


From cacd7a4f54fccb20e76caf632275e4883d464b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:03 +0000
Subject: [PATCH 64/66] fix: parallel dropping handles rows without any kept
 entry

---
 src/hif/alg/Schur.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/hif/alg/Schur.hpp b/src/hif/alg/Schur.hpp
index d13d477..08929e9 100644
--- a/src/hif/alg/Schur.hpp
+++ b/src/hif/alg/Schur.hpp
@@ -474,9 +474,13 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
     for (size_type i(start_idx); i < poe_idx; ++i) {
       // L_E part
       const size_type sz_thres_L =
-          std::ceil(alpha_L * (ref_indptr_L[i + 1] - ref_indptr_L[i]));
+          alpha_L > 0
+              ? std::ceil(alpha_L * (ref_indptr_L[i + 1] - ref_indptr_L[i]))
+              : 0.0;
       if (sz_thres_L >= L_E.nnz_in_row(i))
         gaps_L[i] = 0;
+      else if (!sz_thres_L)
+        gaps_L[i] = L_E.nnz_in_row(i);
       else {
         gaps_L[i] = L_E.nnz_in_row(i) - sz_thres_L;
         // fetch values to buffer
@@ -498,9 +502,13 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
 
       // U_F part
       const size_type sz_thres_U =
-          std::ceil(alpha_U * (ref_indptr_U[i + 1] - ref_indptr_U[i]));
+          alpha_U > 0
+              ? std::ceil(alpha_U * (ref_indptr_U[i + 1] - ref_indptr_U[i]))
+              : 0.0;
       if (sz_thres_U >= U_F.nnz_in_col(i))
         gaps_U[i] = 0;
+      else if (!sz_thres_U)
+        gaps_U[i] = U_F.nnz_in_col(i);
       else {
         gaps_U[i] = U_F.nnz_in_col(i) - sz_thres_U;
         // fetch values to buffer
-- 
2.43.0


From 3e6acb7af71e930c89e5dbaba610c08e33d01c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:00 +0000
Subject: [PATCH 65/66] fix: size limits beyond the range of sizes no longer
 convert to zero

---
 src/hif/alg/Schur.hpp        | 13 ++++++++-----
 src/hif/alg/factor.hpp       |  7 +++----
 src/hif/alg/pivot_factor.hpp |  7 +++----
 src/hif/alg/symm_factor.hpp  |  7 +++----
 src/hif/alg/thresholds.hpp   |  3 ++-
 src/hif/utils/math.hpp       | 12 ++++++++++++
 6 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/hif/alg/Schur.hpp b/src/hif/alg/Schur.hpp
index 08929e9..5eed99d 100644
--- a/src/hif/alg/Schur.hpp
+++ b/src/hif/alg/Schur.hpp
@@ -37,6 +37,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #include "hif/ds/SparseVec.hpp"
 #include "hif/utils/common.hpp"
 #include "hif/utils/log.hpp"
+#include "hif/utils/math.hpp"
 #include "hif/utils/mt.hpp"
 
 namespace hif {
@@ -71,7 +72,7 @@ inline void drop_offsets_kernel(const IndPtrArray &ref_indptr,
   auto &gaps = ibuf;
   for (size_type i(0); i < n; ++i) {
     const size_type A_sz     = ref_indptr[i + 1] - ref_indptr[i],
-                    sz_thres = std::ceil(alpha * A_sz),
+                    sz_thres = to_size(std::ceil(alpha * A_sz)),
                     nnz      = indptr[i + 1] - indptr[i];
     if (sz_thres >= nnz) {
       // if the threshold is no smaller than the local nnz
@@ -475,8 +476,9 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
       // L_E part
       const size_type sz_thres_L =
           alpha_L > 0
-              ? std::ceil(alpha_L * (ref_indptr_L[i + 1] - ref_indptr_L[i]))
-              : 0.0;
+              ? to_size(std::ceil(
+                    alpha_L * (ref_indptr_L[i + 1] - ref_indptr_L[i])))
+              : 0u;
       if (sz_thres_L >= L_E.nnz_in_row(i))
         gaps_L[i] = 0;
       else if (!sz_thres_L)
@@ -503,8 +505,9 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
       // U_F part
       const size_type sz_thres_U =
           alpha_U > 0
-              ? std::ceil(alpha_U * (ref_indptr_U[i + 1] - ref_indptr_U[i]))
-              : 0.0;
+              ? to_size(std::ceil(
+                    alpha_U * (ref_indptr_U[i + 1] - ref_indptr_U[i])))
+              : 0u;
       if (sz_thres_U >= U_F.nnz_in_col(i))
         gaps_U[i] = 0;
       else if (!sz_thres_U)
diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index 5afc686..dfda173 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -1209,11 +1209,10 @@ inline CsType level_factorize(
 
   // L and U got freed, only L_B and U_B exist
 
-  const size_type dense_thres1 = static_cast<size_type>(
+  const size_type dense_thres1 = to_size(
                       std::max(opts.alpha_L, opts.alpha_U) * AmB_nnz),
                   dense_thres2 = std::max(
-                      static_cast<size_type>(
-                          std::ceil(opts.c_d * std::cbrt(N))),
+                      size_type(to_size(std::ceil(opts.c_d * std::cbrt(N)))),
                       size_type(opts.dense_thres <= 0 ? 2000
                                                       : opts.dense_thres));
 
@@ -1230,7 +1229,7 @@ inline CsType level_factorize(
   hif_assert(S_D.empty(), "fatal!");
 
   if ((post_flag < 0 && opts.pivot != PIVOTING_AUTO) ||
-      (size_type)std::ceil(nm * nm * opts.rho) <= dense_thres1 ||
+      to_size(std::ceil(nm * nm * opts.rho)) <= dense_thres1 ||
       nm <= dense_thres2 || !m || !S.nnz()) {
     // NOTE: if pivoting is auto, then we try to compute the Schur using the
     // pivoting kernel.
diff --git a/src/hif/alg/pivot_factor.hpp b/src/hif/alg/pivot_factor.hpp
index 86f8504..10c8d62 100644
--- a/src/hif/alg/pivot_factor.hpp
+++ b/src/hif/alg/pivot_factor.hpp
@@ -665,11 +665,10 @@ inline CsType pivot_level_factorize(
 
   // L and U got freed, only L_B and U_B exist
 
-  const size_type dense_thres1 = static_cast<size_type>(
+  const size_type dense_thres1 = to_size(
                       std::max(opts.alpha_L, opts.alpha_U) * AmB_nnz),
                   dense_thres2 = std::max(
-                      static_cast<size_type>(
-                          std::ceil(opts.c_d * std::cbrt(N))),
+                      size_type(to_size(std::ceil(opts.c_d * std::cbrt(N)))),
                       size_type(opts.dense_thres <= 0 ? 2000
                                                       : opts.dense_thres));
 
@@ -686,7 +685,7 @@ inline CsType pivot_level_factorize(
   hif_assert(S_D.empty(), "fatal!");
 
   if (post_flag < 0 ||
-      (size_type)std::ceil(nm * nm * opts.rho) <= dense_thres1 ||
+      to_size(std::ceil(nm * nm * opts.rho)) <= dense_thres1 ||
       nm <= dense_thres2 || !m || !S.nnz()) {
     S_D = dense_type::from_sparse(S);
     if (hif_verbose(INFO, opts))
diff --git a/src/hif/alg/symm_factor.hpp b/src/hif/alg/symm_factor.hpp
index 0e9f49b..483b09b 100644
--- a/src/hif/alg/symm_factor.hpp
+++ b/src/hif/alg/symm_factor.hpp
@@ -578,10 +578,9 @@ inline CsType symm_level_factorize(
 
   // L and U got freed, only L_B and U_B exist
 
-  const size_type dense_thres1 = static_cast<size_type>(opts.alpha_L * AmB_nnz),
+  const size_type dense_thres1 = to_size(opts.alpha_L * AmB_nnz),
                   dense_thres2 = std::max(
-                      static_cast<size_type>(
-                          std::ceil(opts.c_d * std::cbrt(N))),
+                      size_type(to_size(std::ceil(opts.c_d * std::cbrt(N)))),
                       size_type(opts.dense_thres <= 0 ? 2000
                                                       : opts.dense_thres));
 
@@ -597,7 +596,7 @@ inline CsType symm_level_factorize(
   hif_assert(S_D.empty(), "fatal!");
 
   if (post_flag < 0 ||
-      (size_type)std::ceil(nm * nm * opts.rho) <= dense_thres1 ||
+      to_size(std::ceil(nm * nm * opts.rho)) <= dense_thres1 ||
       nm <= dense_thres2 || !m || !S.nnz()) {
     S_D = dense_type::from_sparse(S);
     if (hif_verbose(INFO, opts))
diff --git a/src/hif/alg/thresholds.hpp b/src/hif/alg/thresholds.hpp
index e484b55..f463d37 100644
--- a/src/hif/alg/thresholds.hpp
+++ b/src/hif/alg/thresholds.hpp
@@ -34,6 +34,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 #include "hif/utils/common.hpp"
 #include "hif/utils/log.hpp"
+#include "hif/utils/math.hpp"
 
 namespace hif {
 
@@ -79,7 +80,7 @@ inline void apply_space_dropping(
   if (alpha <= 0.0) return;
 
   if (v.size()) {
-    size_type N1 = std::ceil(alpha * nnz);
+    size_type N1 = to_size(std::ceil(alpha * nnz));
     if (start_size >= N1) N1 = start_size + 1;
     const size_type N = N1 - start_size;
     hif_assert(N != 0u, "zero number of limitation!");
diff --git a/src/hif/utils/math.hpp b/src/hif/utils/math.hpp
index ef80121..f50177e 100644
--- a/src/hif/utils/math.hpp
+++ b/src/hif/utils/math.hpp
@@ -32,6 +32,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #include <algorithm>
 #include <cmath>
 #include <complex>
+#include <cstddef>
 #include <type_traits>
 
 #include "hif/utils/common.hpp"
@@ -53,6 +54,17 @@ using std::imag;
 /// \brief get the abs value
 using std::abs;
 
+/// \brief convert a floating-point limit to a size
+/// \param[in] v value input
+/// \return truncated v if it is a valid size, 0 for negative (or NaN) values,
+///         and half of the largest size for anything larger than that
+inline std::size_t to_size(const double v) {
+  constexpr static std::size_t max_size = static_cast<std::size_t>(-1) / 2;
+  if (!(v > 0.0)) return 0u;
+  if (v >= static_cast<double>(max_size)) return max_size;
+  return static_cast<std::size_t>(v);
+}
+
 /// \brief conjugate helper function
 /// \tparam T abstract value type, real type
 /// \param[in] v value input
-- 
2.43.0


From 3b545eaca40b48d6528747a448f3046f20c3175a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:00 +0000
Subject: [PATCH 66/66] fix: verbose factorization reports levels whose pivots
 were all deferred

---
 src/hif/alg/factor.hpp       | 25 +++++++++++++++----------
 src/hif/alg/pivot_factor.hpp | 25 +++++++++++++++----------
 src/hif/alg/symm_factor.hpp  | 15 +++++++++------
 3 files changed, 39 insertions(+), 26 deletions(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index dfda173..356c787 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -1082,31 +1082,36 @@ inline CsType level_factorize(
         (size_type)info_counter[1], (size_type)info_counter[5],
         (size_type)info_counter[3], (size_type)info_counter[6],
         (size_type)info_counter[4],
-        (double)std::abs(
+        m ? (double)std::abs(
             *std::min_element(kappa_ut.cbegin(), kappa_ut.cbegin() + m,
                               [](const value_type l, const value_type r) {
                                 return std::abs(l) < std::abs(r);
-                              })),
-        (double)std::abs(
+                              }))
+          : 0.0,
+        m ? (double)std::abs(
             *std::max_element(kappa_ut.cbegin(), kappa_ut.cbegin() + m,
                               [](const value_type l, const value_type r) {
                                 return std::abs(l) < std::abs(r);
-                              })),
-        (double)std::abs(
+                              }))
+          : 0.0,
+        m ? (double)std::abs(
             *std::min_element(kappa_l.cbegin(), kappa_l.cbegin() + m,
                               [](const value_type l, const value_type r) {
                                 return std::abs(l) < std::abs(r);
-                              })),
-        (double)std::abs(
+                              }))
+          : 0.0,
+        m ? (double)std::abs(
             *std::max_element(kappa_l.cbegin(), kappa_l.cbegin() + m,
                               [](const value_type l, const value_type r) {
                                 return std::abs(l) < std::abs(r);
-                              })),
-        (double)std::abs(
+                              }))
+          : 0.0,
+        m ? (double)std::abs(
             *std::max_element(d.cbegin(), d.cbegin() + m,
                               [](const value_type l, const value_type r) {
                                 return std::abs(l) < std::abs(r);
-                              })));
+                              }))
+          : 0.0);
   }
 
   if (hif_verbose(INFO, opts)) {
diff --git a/src/hif/alg/pivot_factor.hpp b/src/hif/alg/pivot_factor.hpp
index 10c8d62..65a0ce4 100644
--- a/src/hif/alg/pivot_factor.hpp
+++ b/src/hif/alg/pivot_factor.hpp
@@ -538,31 +538,36 @@ inline CsType pivot_level_factorize(
         (size_type)info_counter[8], (size_type)info_counter[9],
         (size_type)info_counter[10], (size_type)info_counter[11],
         (size_type)info_counter[12],
-        (double)std::abs(
+        m ? (double)std::abs(
             *std::min_element(kappa_ut.cbegin(), kappa_ut.cbegin() + m,
                               [](const value_type l, const value_type r) {
                                 return std::abs(l) < std::abs(r);
-                              })),
-        (double)std::abs(
+                              }))
+          : 0.0,
+        m ? (double)std::abs(
             *std::max_element(kappa_ut.cbegin(), kappa_ut.cbegin() + m,
                               [](const value_type l, const value_type r) {
                                 return std::abs(l) < std::abs(r);
-                              })),
-        (double)std::abs(
+                              }))
+          : 0.0,
+        m ? (double)std::abs(
             *std::min_element(kappa_l.cbegin(), kappa_l.cbegin() + m,
                               [](const value_type l, const value_type r) {
                                 return std::abs(l) < std::abs(r);
-                              })),
-        (double)std::abs(
+                              }))
+          : 0.0,
+        m ? (double)std::abs(
             *std::max_element(kappa_l.cbegin(), kappa_l.cbegin() + m,
                               [](const value_type l, const value_type r) {
                                 return std::abs(l) < std::abs(r);
-                              })),
-        (double)std::abs(
+                              }))
+          : 0.0,
+        m ? (double)std::abs(
             *std::max_element(d.cbegin(), d.cbegin() + m,
                               [](const value_type l, const value_type r) {
                                 return std::abs(l) < std::abs(r);
-                              })));
+                              }))
+          : 0.0);
   }
 
   if (hif_verbose(INFO, opts)) {
diff --git a/src/hif/alg/symm_factor.hpp b/src/hif/alg/symm_factor.hpp
index 483b09b..4050ab4 100644
--- a/src/hif/alg/symm_factor.hpp
+++ b/src/hif/alg/symm_factor.hpp
@@ -477,21 +477,24 @@ inline CsType symm_level_factorize(
         step.defers(), m0, m, m0 - m, (size_type)info_counter[0],
         (size_type)info_counter[1], (size_type)info_counter[6],
         (size_type)info_counter[4],
-        (double)std::abs(
+        m ? (double)std::abs(
             *std::min_element(kappa_l.cbegin(), kappa_l.cbegin() + m,
                               [](const value_type l, const value_type r) {
                                 return std::abs(l) < std::abs(r);
-                              })),
-        (double)std::abs(
+                              }))
+          : 0.0,
+        m ? (double)std::abs(
             *std::max_element(kappa_l.cbegin(), kappa_l.cbegin() + m,
                               [](const value_type l, const value_type r) {
                                 return std::abs(l) < std::abs(r);
-                              })),
-        (double)std::abs(
+                              }))
+          : 0.0,
+        m ? (double)std::abs(
             *std::max_element(d.cbegin(), d.cbegin() + m,
                               [](const value_type l, const value_type r) {
                                 return std::abs(l) < std::abs(r);
-                              })));
+                              }))
+          : 0.0);
   }
 
   if (hif_verbose(INFO, opts)) {
-- 
2.43.0

