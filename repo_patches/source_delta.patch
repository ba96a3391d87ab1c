From 3f727c6c54d2b8d09b09a1bc1d6485db721716e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 01/62] fix: extra reductions never look at the first nonzero
 of a column

---
 include/homology/parallel.hpp  | 2 +-
 include/homology/reduction.hpp | 6 +++---
 include/zigzag/reduction.hpp   | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/homology/parallel.hpp b/include/homology/parallel.hpp
index f14902e..c4c3b67 100644
--- a/include/homology/parallel.hpp
+++ b/include/homology/parallel.hpp
@@ -208,7 +208,7 @@ void reduce_column_extra(
 ) {
 	size_t end_offset = 1;
 	auto piv = M[j].nzend() - end_offset; // nonzero location
-	while(piv - M[j].nzbegin() > 0) {
+	while(piv - M[j].nzbegin() >= 0) {
 		// piv is index-value nzpair
 
 		if (p2c.count(piv->ind) > 0) {
diff --git a/include/homology/reduction.hpp b/include/homology/reduction.hpp
index 2505f7b..bd4b80c 100755
--- a/include/homology/reduction.hpp
+++ b/include/homology/reduction.hpp
@@ -96,7 +96,7 @@ p2c_type reduce_matrix_extra(ColumnMatrix<TVec> &M) {
 		bool found_pivot = false;
 		size_t end_offset = 1;
 		auto piv = M[j].nzend() - end_offset; // nonzero location
-		while(piv - M[j].nzbegin() > 0) {
+		while(piv - M[j].nzbegin() >= 0) {
 			// while the nonzero we are looking at is in the vector
 			// piv is index-value nzpair
 			// auto piv = M[j].lastnz();
@@ -194,7 +194,7 @@ p2c_type reduce_matrix_extra(ColumnMatrix<TVec> &M, ColumnMatrix<TVec> &U) {
 	for (size_t j = 0; j < M.ncol(); j++) {
 		size_t end_offset = 1;
 		auto piv = M[j].nzend() - end_offset; // nonzero location
-		while(piv - M[j].nzbegin() > 0) {
+		while(piv - M[j].nzbegin() >= 0) {
 			// while the nonzero we are looking at is in the vector
 			// piv is index-value nzpair
 			// auto piv = M[j].lastnz();
@@ -259,7 +259,7 @@ void reduce_column_sparsify(
 ) {
 	size_t end_offset = 1; // start looking at last nonzero
 	auto piv = M[j].nzend() - end_offset; // nonzero location
-	while (piv - M[j].nzbegin() > 0) {
+	while (piv - M[j].nzbegin() >= 0) {
 		if (pivot_to_col[piv->ind] == j) {
 			// do nothing, because this is already a pivot
 			++end_offset;
diff --git a/include/zigzag/reduction.hpp b/include/zigzag/reduction.hpp
index f578ac2..89ba3e2 100755
--- a/include/zigzag/reduction.hpp
+++ b/include/zigzag/reduction.hpp
@@ -111,7 +111,7 @@ void extra_col_reduction(
 
 	size_t end_offset = 1; // difference from end
 	auto piv = M[j].nzend() - end_offset; // nonzero location
-	while(piv - M[j].nzbegin() > 0) {
+	while(piv - M[j].nzbegin() >= 0) {
 		// while the nonzero we are looking at is in the vector
 		// piv is index-value nzpair
 		size_t k = p2c[piv->ind];
-- 
2.43.0


From 2f5eab1ba43abca8d143f7baa132364a9b127dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 02/62] fix: sparsify_basis may change pivots of R, reads
 before the first nonzero

---
 include/homology/reduction.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/homology/reduction.hpp b/include/homology/reduction.hpp
index bd4b80c..cbc7619 100755
--- a/include/homology/reduction.hpp
+++ b/include/homology/reduction.hpp
@@ -290,7 +290,7 @@ void reduce_column_sparsify(
 				M[j].axpy(-a, M[k], tmp);
 			}
 			piv = M[j].nzend() - end_offset; // next nonzero location
-			if (piv->ind == i) {++end_offset; --piv;} // if we didn't eliminate this nonzero, continue
+			if (piv - M[j].nzbegin() >= 0 && piv->ind == i) {++end_offset; --piv;} // if we didn't eliminate this nonzero, continue
 		} else if (end_offset == 1) {
 			// we can set a new pivot
 			pivot_to_col[piv->ind] = j;
@@ -332,7 +332,8 @@ void sparsify_basis(
 	while (piv - U[j].nzbegin() > 0) {
 		size_t k = piv->ind;
 		// std::cout << k << std::endl;
-		if (R[k].nnz() == 0 || R[k].lastnz().ind < j) {
+		// adding column k must not change the pivot of R[j]
+		if (R[k].nnz() == 0 || (R[j].nnz() > 0 && R[k].lastnz().ind < R[j].lastnz().ind)) {
 			// can potentially modify using this entry
 			coeff.clear();
 			U[j].coeff_intersection(U[k], coeff); // calculate intersections
@@ -351,7 +352,7 @@ void sparsify_basis(
 				R[j].axpy(-a, R[k], tmp);
 			}
 			piv = U[j].nzend() - end_offset; // next nonzero location
-			if (piv->ind == k) {++end_offset; --piv;} // if we didn't eliminate this nonzero, continue
+			if (piv - U[j].nzbegin() >= 0 && piv->ind == k) {++end_offset; --piv;} // if we didn't eliminate this nonzero, continue
 		} else {
 			++end_offset;
 			--piv;
-- 
2.43.0


From bdf31cf527643d72d3a576614ea8d1062d117b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 03/62] fix: partial_reduce_parallel reads past the last column
 when the matrix is narrower than a block

---
 include/homology/parallel.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/homology/parallel.hpp b/include/homology/parallel.hpp
index c4c3b67..c4193ea 100644
--- a/include/homology/parallel.hpp
+++ b/include/homology/parallel.hpp
@@ -2,6 +2,7 @@
 #include <unordered_map>
 #include <vector>
 #include <utility>
+#include <algorithm>
 #include <linalg/sparse_vector.hpp>
 #include <linalg/col_matrix.hpp>
 #include "reduction.hpp"
@@ -353,8 +354,8 @@ void partial_reduce_parallel(
 	size_t n = M.ncol();
 
 	#pragma omp parallel for
-	for (size_t j = 0; j < n-block_size; j+=block_size) {
-		reduce_block_sequential(M, j, j+block_size);
+	for (size_t j = 0; j < n; j+=block_size) {
+		reduce_block_sequential(M, j, std::min(j+block_size, n));
 	}
 	return;
 }
@@ -374,8 +375,8 @@ void partial_reduce_parallel(
 	size_t n = M.ncol();
 
 	#pragma omp parallel for
-	for (size_t j = 0; j < n-block_size; j+=block_size) {
-		reduce_block_sequential(M, U, j, j+block_size);
+	for (size_t j = 0; j < n; j+=block_size) {
+		reduce_block_sequential(M, U, j, std::min(j+block_size, n));
 	}
 	return;
 }
-- 
2.43.0


From c9531ccf8635bebf460aefe4583435f65c1935d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 04/62] fix: field elements constructed from or compared with
 out of range integers, assignment to ModP 2

---
 include/linalg/field.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/linalg/field.hpp b/include/linalg/field.hpp
index 6179c45..b5378c7 100755
--- a/include/linalg/field.hpp
+++ b/include/linalg/field.hpp
@@ -93,7 +93,8 @@ public:
 
 
   ModP() : val(0) {}
-  ModP(IntT val) : val((val + P) % P) {}
+  // signed remainder first: P is unsigned and would wrap a value below -P
+  ModP(IntT val) : val((val % IntT(P) + IntT(P)) % IntT(P)) {}
 
   inline IntT to_int() const { return val; }
 
@@ -158,11 +159,11 @@ public:
   }
 
   inline bool operator==( const int b) const {
-    return ((b - val + P) % P) == 0;
+    return val == ModP(b).val;
   }
 
   inline bool operator!=( const int b) const {
-    return ((val - b + P) % P) != 0;
+    return val != ModP(b).val;
   }
 
   inline bool operator<( const ModP &b) const {
@@ -331,11 +332,12 @@ public:
   }
 
   inline bool operator!=( const int b) const {
-    return (val & 0x1) != b;
+    return (val & 0x1) != (b & 0x1);
   }
 
-  ModP operator=(const int &a) {
-    return ModP(a);
+  ModP& operator=(const int &a) {
+    val = a;
+    return *this;
   }
 
   bool iszero() const {
-- 
2.43.0


From a0eb9cdefd2aa2d1967f74bf341d1727a2043b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 05/62] fix: SparseVector::set_block erased the entry at the
 excluded end of the range

---
 include/linalg/sparse_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index c9737c5..31b7a0e 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -468,7 +468,7 @@ public:
 	) {
 
 		// first delete all entries in the range
-		indval.erase(lower_bound(i0), upper_bound(i1));
+		indval.erase(lower_bound(i0), lower_bound(i1));
 
 		// now insert the elements in b
 		auto it = lower_bound(i0);
-- 
2.43.0


From 53c3da55d3ea1830167d822df1e780eabd770192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 06/62] fix: SparseVector::mix_rows inserted at a stale
 position after erasing row j

---
 include/linalg/sparse_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 31b7a0e..40bf040 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -651,6 +651,7 @@ public:
 				pj->val = d * vj;
 			} else {
 				indval.erase(pj);
+				pi = lower_bound(i); // erase invalidates pi
 			}
 			if (b*vj != 0) indval.insert(pi, key_type(i, b*vj));
 
-- 
2.43.0


From 54d828fcedf68b09621eafaa5371365a4c35e7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 07/62] fix: row insertion dereferenced the end of the inserted
 row list

---
 include/linalg/col_matrix.hpp    | 2 +-
 include/linalg/sparse_vector.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index ca20dde..1770fb2 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -311,7 +311,7 @@ public:
 			// or faster option by std::lower_bound
 			auto it_r_inds = std::lower_bound(r_inds.begin(), r_inds.end(), j);
 			j += std::distance(r_inds.begin(), it_r_inds);
-			while (*it_r_inds <= j && it_r_inds != r_inds.end()) {
+			while (it_r_inds != r_inds.end() && *it_r_inds <= j) {
 				++it_r_inds;
 				j++;
 			}
diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 40bf040..45fa851 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -687,7 +687,7 @@ public:
 			// iv's indices needs to add up the number of indices in r_inds before iv
 			iv->ind += std::distance(r_inds.begin(), it_r_inds);
 			// add up other indices
-			while (*it_r_inds <= iv->ind && it_r_inds != r_inds.end()) {++it_r_inds; iv->ind++;}
+			while (it_r_inds != r_inds.end() && *it_r_inds <= iv->ind) {++it_r_inds; iv->ind++;}
 			// go to the next element in indval
 			++iv;
 		}
@@ -725,7 +725,7 @@ public:
 			iv->ind += ninserted; // this is number inserted to this index
 
 			// insert additional rows as necessary
-			while (*ri <= iv->ind && ri != r_inds.end()) {++ri; iv->ind++; ++ninserted; }
+			while (ri != r_inds.end() && *ri <= iv->ind) {++ri; iv->ind++; ++ninserted; }
 
 			++iv;
 		}
-- 
2.43.0


From 3fd51092081d9a63839b3bfba9a21d9868a35d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 08/62] fix: intersect_sorted_lt ignored the bound for the
 first elements

---
 include/util/sorted.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/util/sorted.hpp b/include/util/sorted.hpp
index c8c8dcd..a465e48 100755
--- a/include/util/sorted.hpp
+++ b/include/util/sorted.hpp
@@ -87,7 +87,7 @@ void intersect_sorted_lt(const C1 &a, const C2 &b, const T maxval, std::vector<T
     c.clear();
     auto ia = a.cbegin();
     auto ib = b.cbegin();
-    while (ia != a.cend() && ib != b.cend()) {
+    while (ia != a.cend() && ib != b.cend() && *ia < maxval && *ib < maxval) {
         if (*ia < *ib) {
             ++ia;
             if (ia == a.cend() || !(*ia < maxval)) {break;}
@@ -110,7 +110,7 @@ template <typename T, typename C1, typename C2>
 bool has_intersect_sorted_lt(const C1 &a, const C2 &b, const T maxval) {
     auto ia = a.cbegin();
     auto ib = b.cbegin();
-    while (ia != a.cend() && ib != b.cend()) {
+    while (ia != a.cend() && ib != b.cend() && *ia < maxval && *ib < maxval) {
         if (*ia < *ib) {
             ++ia;
             if (ia == a.cend() || !(*ia < maxval)) {break;}
-- 
2.43.0


From e53ea8d81c27cb33dc7f03120f3fde8dbdaf28a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 09/62] fix: find_sorted_lt read before the first element when
 none is smaller

---
 include/util/sorted.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/util/sorted.hpp b/include/util/sorted.hpp
index a465e48..6d2cf8a 100755
--- a/include/util/sorted.hpp
+++ b/include/util/sorted.hpp
@@ -199,6 +199,7 @@ size_t find_sorted_lt(const TI &begin, const TI &end, const T &v) {
         end,
         v
     );
+    if (it == begin) { return bats::NO_IND; } // no element is smaller
     it--;
     if (*it < v) {
         return it - begin;
-- 
2.43.0


From 9fbf6e56748d9633acfb3c7b6e5ef9db92d10325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 10/62] fix: update_filtration applied the inverse of the
 update permutation, with indices stored in filtration type

---
 include/chain/filtered_chain_complex.hpp   |  5 +++--
 include/chain/filtered_cochain_complex.hpp |  5 +++--
 include/dgvs/filtered_dgvs.hpp             | 12 +++++++++---
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/chain/filtered_chain_complex.hpp b/include/chain/filtered_chain_complex.hpp
index f75cd83..a1bd393 100755
--- a/include/chain/filtered_chain_complex.hpp
+++ b/include/chain/filtered_chain_complex.hpp
@@ -41,13 +41,14 @@ struct FilteredChainComplex {
 
 		// step 2: determine update to old permutation
 		// iperm[k] will hold the updated permutation temporarily
-		std::vector<FT> tmp; // temporary vector
+		std::vector<size_t> tmp; // temporary vector
 		for (size_t k = 0; k < iperm.size(); k++) {
 			bats::util::apply_perm(iperm[k].data(), tmp, perms[k]);
 		}
 
 		// step 3: apply permutation updates to ChainComplex C
-		C.permute_basis(iperm);
+		// iperm[k][i] is the current position of the cell which moves to position i
+		C.ipermute_basis(iperm);
 
 		// step 4: store new permutation
 		perm = perms;
diff --git a/include/chain/filtered_cochain_complex.hpp b/include/chain/filtered_cochain_complex.hpp
index 370bd33..e484869 100644
--- a/include/chain/filtered_cochain_complex.hpp
+++ b/include/chain/filtered_cochain_complex.hpp
@@ -41,13 +41,14 @@ struct FilteredCochainComplex {
 
 		// step 2: determine update to old permutation
 		// iperm[k] will hold the updated permutation temporarily
-		std::vector<FT> tmp; // temporary vector
+		std::vector<size_t> tmp; // temporary vector
 		for (size_t k = 0; k < iperm.size(); k++) {
 			bats::util::apply_perm(iperm[k].data(), tmp, perms[k]);
 		}
 
 		// step 3: apply permutation updates to ChainComplex C
-		C.permute_basis(iperm);
+		// iperm[k][i] is the current position of the cell which moves to position i
+		C.ipermute_basis(iperm);
 
 		// step 4: store new permutation
 		perm = perms;
diff --git a/include/dgvs/filtered_dgvs.hpp b/include/dgvs/filtered_dgvs.hpp
index e1ec533..e85584d 100644
--- a/include/dgvs/filtered_dgvs.hpp
+++ b/include/dgvs/filtered_dgvs.hpp
@@ -53,20 +53,26 @@ struct FilteredDGVectorSpace {
 	void update_filtration(const std::vector<std::vector<FT>> newval) {
 		// step 1: determine permutation order for newval
 		auto perms = filtration_sortperm(newval);
-
+		if (C.degree == +1) {
+			// for cohomology reverse rows and columns
+			for (auto& pi : perms) {
+				std::reverse(pi.begin(), pi.end());
+			}
+		}
 
 		// get inverse permutation for current permutation
 		auto iperm = filtration_iperm(perm);
 
 		// step 2: determine update to old permutation
 		// iperm[k] will hold the updated permutation temporarily
-		std::vector<FT> tmp; // temporary vector
+		std::vector<size_t> tmp; // temporary vector
 		for (size_t k = 0; k < iperm.size(); k++) {
 			bats::util::apply_perm(iperm[k].data(), tmp, perms[k]);
 		}
 
 		// step 3: apply permutation updates to ChainComplex C
-		C.permute_basis(iperm);
+		// iperm[k][i] is the current position of the cell which moves to position i
+		C.ipermute_basis(iperm);
 
 		// step 4: store new permutation
 		perm = perms;
-- 
2.43.0


From b9f7fb2b1ac2733a065d486b334e0b3542950b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 11/62] fix: permute_basis of complexes of degree +1 permuted
 the wrong side of the differentials

---
 include/chain/cochain_complex.hpp | 28 +++++++++++-----------
 include/dgvs/dgvs.hpp             | 40 ++++++++++++++++++++-----------
 2 files changed, 40 insertions(+), 28 deletions(-)

diff --git a/include/chain/cochain_complex.hpp b/include/chain/cochain_complex.hpp
index 43e645c..7cbac96 100755
--- a/include/chain/cochain_complex.hpp
+++ b/include/chain/cochain_complex.hpp
@@ -49,15 +49,15 @@ struct CochainComplex {
 	// permute basis in dimension k
 	void permute_basis(size_t k, const std::vector<size_t> &perm) {
 		if (k == 0) {
-			// only worry about boundary[1]
-			coboundary[1].permute_rows(perm);
+			// only worry about coboundary[1]
+			if (maxdim() > 0) { coboundary[1].permute_cols(perm); }
 		} else if (k == maxdim()) {
-			coboundary[maxdim()].permute_cols(perm);
-			// only worry about boundary[maxdim()]
+			coboundary[k].permute_rows(perm);
+			// only worry about coboundary[maxdim()]
 		} else {
-			// need to handle boundary[k] and boundary[k+1]
-			coboundary[k].permute_cols(perm);
-			coboundary[k+1].permute_rows(bats::util::inv_perm(perm));
+			// coboundary[k] : C^{k-1} -> C^k
+			coboundary[k].permute_rows(perm);
+			coboundary[k+1].permute_cols(perm);
 		}
 	}
 
@@ -70,15 +70,15 @@ struct CochainComplex {
 
 	void ipermute_basis(size_t k, const std::vector<size_t> &perm) {
 		if (k == 0) {
-			// only worry about boundary[1]
-			coboundary[1].permute_rows(bats::util::inv_perm(perm));
+			// only worry about coboundary[1]
+			if (maxdim() > 0) { coboundary[1].ipermute_cols(perm); }
 		} else if (k == maxdim()) {
-			coboundary[k].ipermute_cols(perm);
-			// only worry about boundary[maxdim()]
+			coboundary[k].permute_rows(bats::util::inv_perm(perm));
+			// only worry about coboundary[maxdim()]
 		} else {
-			// need to handle boundary[k] and boundary[k+1]
-			coboundary[k].ipermute_cols(perm);
-			coboundary[k+1].permute_rows(bats::util::inv_perm(perm));
+			// coboundary[k] : C^{k-1} -> C^k
+			coboundary[k].permute_rows(bats::util::inv_perm(perm));
+			coboundary[k+1].ipermute_cols(perm);
 		}
 	}
 
diff --git a/include/dgvs/dgvs.hpp b/include/dgvs/dgvs.hpp
index 3518025..441f2f4 100644
--- a/include/dgvs/dgvs.hpp
+++ b/include/dgvs/dgvs.hpp
@@ -97,18 +97,31 @@ struct DGVectorSpace {
 
 	// permute basis in dimension k
 	void permute_basis(ssize_t k, const std::vector<size_t> &perm) {
-		// TODO: this assumes that degree = -1
-		if (k == 0) {
-			// only worry about boundary[1]
-			differential[1].permute_rows(perm);
-		} else if (k == maxdim()) {
-			differential[k].permute_cols(perm);
-			// only worry about boundary[maxdim()]
-		} else {
-			// need to handle boundary[k] and boundary[k+1]
-			differential[k].permute_cols(perm);
-			differential[k+1].permute_rows(perm);
-			// boundary[k+1].ipermute_rows(bats::util::inv_perm(perm));
+		if (degree == -1) {
+			if (k == 0) {
+				// only worry about boundary[1]
+				differential[1].permute_rows(perm);
+			} else if (k == maxdim()) {
+				differential[k].permute_cols(perm);
+				// only worry about boundary[maxdim()]
+			} else {
+				// need to handle boundary[k] and boundary[k+1]
+				differential[k].permute_cols(perm);
+				differential[k+1].permute_rows(perm);
+				// boundary[k+1].ipermute_rows(bats::util::inv_perm(perm));
+			}
+		} else { // degree == +1
+			// differential[0] : * -> C^0
+			// differential[k] : C^{k-1} -> C^k
+			if (k == 0) {
+				// only worry about differential[1]
+				differential[1].permute_cols(perm);
+			} else if (k == maxdim()) {
+				differential[k].permute_rows(perm);
+			} else {
+				differential[k+1].permute_cols(perm);
+				differential[k].permute_rows(perm);
+			}
 		}
 	}
 
@@ -120,7 +133,6 @@ struct DGVectorSpace {
 	}
 
 	void ipermute_basis(ssize_t k, const std::vector<size_t> &perm) {
-		// TODO: this assumes that degree = -1
 		if (degree == -1) {
 			if (k == 0) {
 				// only worry about boundary[1]
@@ -135,7 +147,7 @@ struct DGVectorSpace {
 			}
 		} else { // degree == +1
 			// differential[0] : * -> C^0
-			// differential[k] : C^k -> C^{k+1}
+			// differential[k] : C^{k-1} -> C^k
 			if (k == 0) {
 				// only worry about boundary[1]
 				differential[1].ipermute_cols(perm);
-- 
2.43.0


From d6f313782e8ed3dcc52c67386d2b88d20444f3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 12/62] fix: ipermute applied the forward permutation,
 permute_basis read a missing differential in dimension 0

---
 include/chain/chain_complex.hpp  | 6 +++---
 include/homology/basis.hpp       | 2 +-
 include/linalg/sparse_vector.hpp | 8 +++-----
 3 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index 1109584..36a2599 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -124,7 +124,7 @@ struct ChainComplex {
 	void permute_basis(size_t k, const std::vector<size_t> &perm) {
 		if (k == 0) {
 			// only worry about boundary[1]
-			boundary[1].permute_rows(perm);
+			if (maxdim() > 0) { boundary[1].permute_rows(perm); }
 		} else if (k == maxdim()) {
 			boundary[k].permute_cols(perm);
 			// only worry about boundary[maxdim()]
@@ -146,7 +146,7 @@ struct ChainComplex {
 	void ipermute_basis(size_t k, const std::vector<size_t> &perm) {
 		if (k == 0) {
 			// only worry about boundary[1]
-			boundary[1].permute_rows(bats::util::inv_perm(perm));
+			if (maxdim() > 0) { boundary[1].permute_rows(bats::util::inv_perm(perm)); }
 		} else if (k == maxdim()) {
 			boundary[k].ipermute_cols(perm);
 			// only worry about boundary[maxdim()]
@@ -236,7 +236,7 @@ template <typename Information_type>
 		if(!PI_row.empty() && PI_row != identity_perm(PI_row.size())){
 			// std::cout << "permute rows with permutation" << std::endl;
 			// print_1D_vectors(PI_row);
-			boundary[k+1].ipermute_rows(bats::util::inv_perm(PI_row));
+			boundary[k+1].permute_rows(bats::util::inv_perm(PI_row));
 		}
 
 		// std::cout << "\nafter permutation of rows" << std::endl;
diff --git a/include/homology/basis.hpp b/include/homology/basis.hpp
index 649af14..cacc3e3 100755
--- a/include/homology/basis.hpp
+++ b/include/homology/basis.hpp
@@ -293,7 +293,7 @@ public:
 		auto iperm = bats::util::inv_perm(perm);
 		if (k == 0) {
 			// only worry about boundary[1]
-			R[1].permute_rows(iperm);
+			if (maxdim() > 0) { R[1].permute_rows(iperm); }
 		} else if (k == maxdim()) {
 			// only need to worry about rows of U[k]
 			U[k].permute_rows(iperm); // inverse perm here
diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 45fa851..d6364c4 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -417,12 +417,10 @@ public:
 	}
 
 	// apply inverse permutation in-place
-	// O(nz log nz) where nz is #non-zeros
+	// index perm[i] maps to i
+	// O(n + nz log nz) where nz is #non-zeros
 	void ipermute(const std::vector<size_t>  &perm) {
-		for (size_t i = 0; i < nnz(); i++) {
-			indval[i].ind = perm[indval[i].ind];
-		}
-		sort();
+		permute(bats::util::inv_perm(perm));
 	}
 
 	// return subvector based on indices pind
-- 
2.43.0


From 23f83dc7e01abbb32318079632dbb324eed80c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 13/62] fix: insert_rows compared insertion indices with the
 wrong counter, zero insert_column applied the inverse permutation

---
 include/linalg/col_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index 1770fb2..ae02771 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -203,7 +203,7 @@ public:
 			if (i > index) j = i-1;
 			colperm.emplace_back(j);
 		}
-		permute_cols(colperm);
+		ipermute_cols(colperm);
 	}
 
 	/**
@@ -388,7 +388,7 @@ public:
 		size_t i = 0; // permutation index
 		while (i1 < r_inds.size() && i < m) {
 			// insert rows until we get to an insertion index
-			while (r_inds[i1] > i0) {
+			while (r_inds[i1] > i) {
 				rperm[i++] = i0++;
 			}
 			// insert index
-- 
2.43.0


From 46497e9e2b7a9dfb9ab3ba3e2a04de21648f3635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 14/62] fix: ChainComplex::update_basis_general moved deleted
 cells with the inverse permutation

---
 include/chain/chain_complex.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index 36a2599..3f45cea 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -207,7 +207,7 @@ template <typename Information_type>
 			// find the permutation that will permute
 			// the column that is going to remove to the end
 			std::vector<size_t> perm = perm_to_the_end(del_ind_col, boundary[k+1].ncol());
-			boundary[k+1].permute_cols(perm); // permute
+			boundary[k+1].ipermute_cols(perm); // permute
 			for(size_t i = 0; i < del_ind_col.size(); i++){
 				// size_t current_index = ind - i;
 				boundary[k+1].erase_column(); // erase the last column
@@ -224,7 +224,7 @@ template <typename Information_type>
 			// print_1D_vectors(del_ind_row);
 
 			std::vector<size_t> perm = perm_to_the_end(del_ind_row, boundary[k+1].nrow());
-			boundary[k+1].permute_rows(perm); // permute
+			boundary[k+1].ipermute_rows(perm); // permute
 			for(size_t i = 0; i < del_ind_row.size(); i++){
 				boundary[k+1].erase_row(); // erase the last row
 			}
-- 
2.43.0


From 6f2fd96d583efba8485f5312469bcb52ea0369bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 15/62] fix: UpdateInfo2 asked for the boundary of an inserted
 vertex

---
 include/filtration/update_information.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/filtration/update_information.hpp b/include/filtration/update_information.hpp
index e4d5bf0..5a0de99 100755
--- a/include/filtration/update_information.hpp
+++ b/include/filtration/update_information.hpp
@@ -173,11 +173,11 @@ struct UpdateInfo2{
 				} else {
 					// this simplex is not in X1 - must be inserted
 					insertion_indices[dim].emplace_back(fj2); // this is insertion index
-					auto [ind, val] = X2.boundary(dim, j2);
 
 					// put indices  of boundary in permutation order
 					bdry.clear();
-					if (dim > 0) {
+					if (dim > 0) { // dimension zero has no boundary
+						auto [ind, val] = X2.boundary(dim, j2);
 						for (size_t ii = 0; ii < ind.size(); ++ii) {
 							bdry.emplace_back(nzpair(
 								iperms2[dim-1][ind[ii]], // where index gets mapped in filtration order
-- 
2.43.0


From 3e2c13130e9a9da369718ba4f6fd0e0c7a65ad0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 16/62] fix: update_basis_general gave new vertices the wrong
 unit columns, left the top dimension out of step

---
 include/homology/basis.hpp   |  4 ++--
 include/homology/dgbasis.hpp | 45 +++++++++++++++++++++++++-----------
 2 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/include/homology/basis.hpp b/include/homology/basis.hpp
index cacc3e3..df0fa28 100755
--- a/include/homology/basis.hpp
+++ b/include/homology/basis.hpp
@@ -403,8 +403,8 @@ public:
 
 			// step 2.6 addition of columns
 			if(k==0){
-				// find the index of the rightmost column of U
-				size_t final_ind_of_U = U[k].ncol() - 1;
+				// index of the next column of U
+				size_t final_ind_of_U = U[k].ncol();
 
 				// find the # of addition
 				size_t count = UI.addition_indices[k].size();
diff --git a/include/homology/dgbasis.hpp b/include/homology/dgbasis.hpp
index 94ab1b2..e3251c4 100644
--- a/include/homology/dgbasis.hpp
+++ b/include/homology/dgbasis.hpp
@@ -486,7 +486,7 @@ public:
 		if (UI.ndeletions[k] == 0) { return; } // quick exit
 
 		if (degree == -1) {
-			if (k < UI.perm.size()-1) {
+			if (k + 1 < R.size()) {
 				R[k+1].erase_final_rows_unsafe(UI.ndeletions[k]);
 			}
 			U[k].erase_final_columns(UI.ndeletions[k]);
@@ -512,7 +512,7 @@ public:
 		if (UI.insertion_indices[k].size() == 0) { return; } // quick exit
 		std::cout << "\t\t_insert_cells " << k << std::endl;
 		if (degree == -1) {
-			if ( k < UI.perm.size() - 1 ) {
+			if ( k + 1 < R.size() ) {
 				// insert rows one dimension up
 				R[k+1].insert_rows(UI.insertion_indices[k]);
 			}
@@ -645,8 +645,8 @@ public:
 
 		// finalize reduction
 		if (degree == -1) {
-			for (ssize_t k = UI.perm.size()-1; k >= 0; --k) {
-				if (k < (ssize_t) UI.perm.size() - 1) {
+			for (ssize_t k = R.size()-1; k >= 0; --k) {
+				if (k < (ssize_t) R.size() - 1) {
 					p2c[k] = reduce_matrix_clearing(R[k], U[k], R[k+1], p2c[k+1], bats::standard_reduction_flag());
 				} else {
 					p2c[k] = reduce_matrix(R[k], U[k]);
@@ -851,8 +851,8 @@ public:
 					// find the # of addition
 					size_t count = UI.addition_indices[k].size();
 					if (degree == -1){ // homology add columns
-						// find the index of the rightmost column of U
-						size_t final_ind_of_U = U[k].ncol() - 1;
+						// index of the next column of U
+						size_t final_ind_of_U = U[k].ncol();
 						// append zero columns
 						for (size_t i = 0; i < count; i++){
 							R[k].append_column();
@@ -974,11 +974,20 @@ public:
 
 		//cohomology the highest dimension need add/remove zero columns(simplices at the highest dimension)
 		if(degree == +1){
-			// TODO: modify U[max_dim+1] as well, but not necessary because R[max_dim+1] is a zero matrix
+			// R[max_dim+1] is a zero matrix and U[max_dim+1] is the identity
+			size_t ndel = UI.deletion_indices[max_dim].size();
+			U[max_dim+1].erase_final_columns(ndel);
+			U[max_dim+1].erase_final_rows_unsafe(ndel);
+			R[max_dim+1].erase_final_columns(ndel);
 			for (size_t i = 0; i < UI.addition_indices[max_dim].size(); i++){
 				R[max_dim+1].append_column();
+				U[max_dim+1].append_row();
+				U[max_dim+1].append_column(VectT(size_t(U[max_dim+1].ncol())));
 			}
-			R[max_dim+1].erase_final_columns(UI.deletion_indices[max_dim].size());
+		} else { // homology the zero map above the highest dimension needs its rows updated
+			R[max_dim+1].erase_final_rows_unsafe(UI.deletion_indices[max_dim].size());
+			R[max_dim+1].insert_rows(UI.addition_indices[max_dim]);
+			p2c[max_dim+1] = reduce_matrix(R[max_dim+1], U[max_dim+1], args...);
 		}
 
 		t0 = std::chrono::steady_clock::now();
@@ -1220,8 +1229,8 @@ public:
 					// find the # of addition
 					size_t count = UI.addition_indices[k].size();
 					if (degree == -1){ // homology add columns
-						// find the index of the rightmost column of U
-						size_t final_ind_of_U = U[k].ncol() - 1;
+						// index of the next column of U
+						size_t final_ind_of_U = U[k].ncol();
 						// append zero columns
 						for (size_t i = 0; i < count; i++){
 							R[k].append_column();
@@ -1335,14 +1344,14 @@ public:
 		t0 = std::chrono::steady_clock::now();
 		if (degree == -1) {
 			// do top dimension normally
-			p2c[max_dim-1] = reduce_matrix(R[max_dim-1], U[max_dim-1], bats::standard_reduction_flag());
-			for (ssize_t k = max_dim-2; k >= 0; --k) {
+			p2c[max_dim] = reduce_matrix(R[max_dim], U[max_dim], bats::standard_reduction_flag());
+			for (ssize_t k = (ssize_t) max_dim - 1; k >= 0; --k) {
 				p2c[k] = reduce_matrix_clearing(R[k], U[k], R[k+1], p2c[k+1], bats::standard_reduction_flag());
 			}
 		} else { // degree == +1
 			// do bottom dimension normally
 			p2c[0] = reduce_matrix(R[0], U[0], bats::standard_reduction_flag());
-			for (ssize_t k = 1; k < max_dim; ++k) {
+			for (size_t k = 1; k < max_dim + 1; ++k) {
 				p2c[k] = reduce_matrix_clearing(R[k], U[k], R[k-1], p2c[k-1], bats::standard_reduction_flag());
 			}
 		}
@@ -1357,9 +1366,19 @@ public:
 
 		//cohomology the highest dimension need add zero columns
 		if(degree == +1){
+			size_t ndel = UI.deletion_indices[max_dim].size();
+			U[max_dim+1].erase_final_columns(ndel);
+			U[max_dim+1].erase_final_rows_unsafe(ndel);
+			R[max_dim+1].erase_final_columns(ndel);
 			for (size_t i = 0; i < UI.addition_indices[max_dim].size(); i++){
 				R[max_dim+1].append_column();
+				U[max_dim+1].append_row();
+				U[max_dim+1].append_column(VectT(size_t(U[max_dim+1].ncol())));
 			}
+		} else { // homology the zero map above the highest dimension needs its rows updated
+			R[max_dim+1].erase_final_rows_unsafe(UI.deletion_indices[max_dim].size());
+			R[max_dim+1].insert_rows(UI.addition_indices[max_dim]);
+			p2c[max_dim+1] = reduce_matrix(R[max_dim+1], U[max_dim+1], bats::standard_reduction_flag());
 		}
 
 		t0 = std::chrono::steady_clock::now();
-- 
2.43.0


From d1319a9c41bc9b201ab4efdab7516fa00a77fbf7 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 17/62] fix: neighborhoods by radius fills its own entry per
 point (was a racing emplace_back after n empty entries)

---
 include/topology/neighborhood.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/neighborhood.hpp b/include/topology/neighborhood.hpp
index b99e4a4..0564ba3 100755
--- a/include/topology/neighborhood.hpp
+++ b/include/topology/neighborhood.hpp
@@ -59,7 +59,7 @@ std::vector<std::vector<size_t>> neighborhoods(
 
 	#pragma omp parallel for
 	for (size_t i = 0; i < X.size(); i++) {
-		nbrs.emplace_back(neighborhood(X[i], Y, dist, r));
+		nbrs[i] = neighborhood(X[i], Y, dist, r);
 	}
 
 	return nbrs;
-- 
2.43.0


From 284af8d189c25b13d4836982b5d43b745c0f51df Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 18/62] fix: Rips functors check their parameters before the
 parallel loop (the exception could not leave it)

---
 include/multigraph/functors.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/multigraph/functors.hpp b/include/multigraph/functors.hpp
index 242175d..da09a63 100755
--- a/include/multigraph/functors.hpp
+++ b/include/multigraph/functors.hpp
@@ -101,6 +101,13 @@ Diagram<SimplicialComplex, CellularMap> Rips(
 
 	size_t n = D.nnode();
 	size_t m = D.nedge();
+	// check parameters first: an exception can not leave a parallel region
+	for (size_t i = 0; i < m; i++) {
+		if (rmax[D.elist[i].targ] < rmax[D.elist[i].src]) {
+			throw std::range_error("Rips parameter must be non-decreasing from source to target.");
+		}
+	}
+
 	// Diagram of simplicial complexes and maps
 	Diagram<SimplicialComplex, CellularMap> TD(n, m);
 
@@ -116,9 +123,6 @@ Diagram<SimplicialComplex, CellularMap> Rips(
 	for (size_t i = 0; i < m; i++) {
 	    auto s = D.elist[i].src;
 	    auto t = D.elist[i].targ;
-		if (rmax[t] < rmax[s]) {
-			throw std::range_error("Rips parameter must be non-decreasing from source to target.");
-		}
 	    TD.set_edge(i, s, t,
 	                    SimplicialMap(TD.node[s] , TD.node[t], D.edata[i])
 	                   );
@@ -277,6 +281,13 @@ auto RipsHom(
 
 	size_t n = D.nnode();
 	size_t m = D.nedge();
+	// check parameters first: an exception can not leave a parallel region
+	for (size_t i = 0; i < m; i++) {
+		if (rmax[D.elist[i].targ] < rmax[D.elist[i].src]) {
+			throw std::range_error("Rips parameter must be non-decreasing from source to target.");
+		}
+	}
+
 	// Diagram of dimensions and induced maps
 	Diagram<size_t, MT> TD(n, m);
 
@@ -287,9 +298,6 @@ auto RipsHom(
 	for (size_t i = 0; i < m; i++) {
 	    auto s = D.elist[i].src;
 	    auto t = D.elist[i].targ;
-		if (rmax[t] < rmax[s]) {
-			throw std::range_error("Rips parameter must be non-decreasing from source to target.");
-		}
 		// handle nodes
 		auto Is = get_subset(X, D.node[s]);
 		auto It = get_subset(X, D.node[t]);
-- 
2.43.0


From a4067fdc6e5f7aa5df4430dc3f075bf7c0f8453b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 19/62] fix: declare the simd reductions in force_repel_rp

---
 include/topology/spherical.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/topology/spherical.hpp b/include/topology/spherical.hpp
index 14bab27..2801a25 100755
--- a/include/topology/spherical.hpp
+++ b/include/topology/spherical.hpp
@@ -83,13 +83,13 @@ void force_repel_rp(
 	// project onto unit ball
 	for (size_t j = 0; j < n; j++) {
 		T ip = T(0);
-		#pragma omp simd
+		#pragma omp simd reduction(+:ip)
 		for (size_t k = 0; k < d; k++) {
 			ip += v(j,k) * dv(j,k);
 		}
 
 		T dvn = T(0); // dv norm
-		#pragma omp simd
+		#pragma omp simd reduction(+:dvn)
 		for (size_t k = 0; k < d; k++) {
 			dv(j,k) -= ip*v(j,k); // project off normal component
 			dvn += dv(j,k) * dv(j,k);
-- 
2.43.0


From ddcfbe56ef46ac9698bb568f52a6cc2600cad678 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 20/62] fix: the noise loops draw from one generator in
 sequence, they are not simd loops

---
 include/topology/data_gen.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/topology/data_gen.hpp b/include/topology/data_gen.hpp
index 3a548e6..5177c61 100755
--- a/include/topology/data_gen.hpp
+++ b/include/topology/data_gen.hpp
@@ -28,7 +28,6 @@ Matrix<T>& add_normal_noise(
     std::default_random_engine generator(seed);
     std::normal_distribution<T> distribution(mu,sigma);
 
-    #pragma omp simd
     for (size_t i = 0; i < X.size(); i++) {
         X(i) += distribution(generator);
     }
@@ -47,7 +46,6 @@ Matrix<T>& add_normal_noise(
     std::default_random_engine generator(seed);
     std::normal_distribution<T> distribution(mu,sigma);
 
-    #pragma omp simd
     for (size_t i = 0; i < X.size(); i++) {
         X(i) += distribution(generator);
     }
@@ -85,7 +83,6 @@ Matrix<T>& add_uniform_noise(Matrix<T> &X,
     std::default_random_engine generator(seed);
     std::uniform_real_distribution<T> distribution(lb, ub);
 
-    #pragma omp simd
     for (size_t i = 0; i < X.size(); i++) {
         X(i) += distribution(generator);
     }
-- 
2.43.0


From 6899505c15d03bfac9988627f4fd54612559b85f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:11:15 +0000
Subject: [PATCH 21/62] fix: SparseTrie assignment releases the old children
 (copying an empty trie left a dangling pointer)

---
 include/util/trie.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/util/trie.hpp b/include/util/trie.hpp
index 27701eb..b7cb925 100755
--- a/include/util/trie.hpp
+++ b/include/util/trie.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
-// #include <unordered_map>
+#include <cstddef>
+#include <unordered_map>
 #include <vector>
 // #include "tsl/hopscotch_map.h"
 // #include "tsl/robin_map.h"
@@ -44,16 +45,22 @@ public:
 
     SparseTrie() : val(T(0)), children(nullptr) {};
 
-    ~SparseTrie() {
+    // release children
+    void release_children() {
         if (children != nullptr) {
 			// delete each child
             for (auto kvpair : *children) {
                 delete kvpair.second;
             }
             delete children;
+            children = nullptr;
         }
     }
 
+    ~SparseTrie() {
+        release_children();
+    }
+
 	// Copy assignment
 	// performs deep copy
 	SparseTrie& operator=(const SparseTrie& t) {
@@ -61,7 +68,7 @@ public:
 		if (&t == this) {return *this;}
 
 		// release children
-		if (children != nullptr) { delete children; }
+		release_children();
 
 		val = t.val;
         if (t.children != nullptr) {
@@ -83,7 +90,7 @@ public:
 			return *this;
 
 		// release children
-		if (children != nullptr) { delete children; }
+		release_children();
 
 		val = t.val;
 		// Transfer ownership of children
-- 
2.43.0


From c65f7cac3b958c61e3b608f9d99f334ca91c8643 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:11:15 +0000
Subject: [PATCH 22/62] fix: LightSimplicialComplex boundary iterator read
 offset[-1] at the last face; default constructor initialises the offsets

---
 include/complex/light_simplicial_complex.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/complex/light_simplicial_complex.hpp b/include/complex/light_simplicial_complex.hpp
index 8be9b52..d2ff2ad 100755
--- a/include/complex/light_simplicial_complex.hpp
+++ b/include/complex/light_simplicial_complex.hpp
@@ -103,7 +103,7 @@ private:
 			index_type v = before / p->offset(i);
 			before = before % p->offset(i);
 			index_type face = before + after;
-			after += v * p->offset(i-1);
+			if (i > 0) { after += v * p->offset(i-1); }
 
 			// prepare for next iteration
 			c = -c;
@@ -119,7 +119,7 @@ private:
 		simplex_boundary_iterator& operator++() {
 			index_type v = before / p->offset(i);
 			before = before % p->offset(i);
-			after += v * p->offset(i-1);
+			if (i > 0) { after += v * p->offset(i-1); }
 
 			c = -c;
 			i--;
@@ -153,7 +153,7 @@ private:
 	};
 
 public:
-    LightSimplicialComplex() : _n(0), _k(0) {}
+    LightSimplicialComplex() : LightSimplicialComplex(0, 0) {}
 
     LightSimplicialComplex(
         const index_type n,
-- 
2.43.0


From 16c17570472111f000ab2bb48d09d4707c228737 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:11:15 +0000
Subject: [PATCH 23/62] fix: CellularMap resized to one dimension too few

---
 include/complex/cell_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/complex/cell_map.hpp b/include/complex/cell_map.hpp
index 1debfce..afa3997 100755
--- a/include/complex/cell_map.hpp
+++ b/include/complex/cell_map.hpp
@@ -22,7 +22,7 @@ private:
 	std::vector<map_type> cell_map;
 
 	inline void _resize(size_t dim) { cell_map.resize(dim); }
-	inline void _safe_resize(size_t dim) { if (dim >= cell_map.size()) { _resize(dim); } }
+	inline void _safe_resize(size_t dim) { if (dim >= cell_map.size()) { _resize(dim + 1); } }
 
 public:
 
-- 
2.43.0


From 5754566895c0ade811ddea7c91aad1ded8a0dcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:52 +0000
Subject: [PATCH 24/62] fix: inline definitions and include guards, so that
 bats.hpp can be included in several translation units of one program

---
 include/bats.hpp                     |  4 ++--
 include/filtration/filtration.hpp    |  2 +-
 include/filtration/rips.hpp          |  2 +-
 include/homology/reduction.hpp       |  2 +-
 include/linalg/pid.hpp               |  2 +-
 include/multigraph/functors.hpp      |  2 +-
 include/multigraph/multigraph.hpp    |  1 +
 include/persistence/union_find.hpp   |  3 ++-
 include/quiver/sparse.hpp            |  2 +-
 include/topology/cover.hpp           |  2 +-
 include/topology/data_gen.hpp        |  2 +-
 include/topology/extras.hpp          |  2 +-
 include/topology/grid.hpp            |  6 +++---
 include/topology/inclusion.hpp       |  4 ++--
 include/topology/nerve.hpp           |  4 ++--
 include/util/barcode.hpp             |  1 +
 include/util/common.hpp              |  4 ++--
 include/util/io.hpp                  |  2 +-
 include/util/permutation.hpp         | 16 ++++++++--------
 include/util/set.hpp                 |  2 +-
 include/zigzag/zigzag_filtration.hpp |  4 ++--
 21 files changed, 36 insertions(+), 33 deletions(-)

diff --git a/include/bats.hpp b/include/bats.hpp
index 2e8ebca..2c018b6 100755
--- a/include/bats.hpp
+++ b/include/bats.hpp
@@ -4,8 +4,8 @@ Single header file to include all functionality
 */
 #ifdef BATS_OPCOUNT
 namespace bats {
-    unsigned field_ops; // global counter for field operations
-    unsigned column_ops; // global counter for column operations
+    inline unsigned field_ops; // global counter for field operations
+    inline unsigned column_ops; // global counter for column operations
 }
 #endif
 
diff --git a/include/filtration/filtration.hpp b/include/filtration/filtration.hpp
index b62420c..b11a4d6 100755
--- a/include/filtration/filtration.hpp
+++ b/include/filtration/filtration.hpp
@@ -26,7 +26,7 @@ std::vector<std::vector<size_t>> filtration_sortperm(
 	return perms;
 }
 
-std::vector<std::vector<size_t>> filtration_iperm(
+inline std::vector<std::vector<size_t>> filtration_iperm(
 	const std::vector<std::vector<size_t>> &perms
 ) {
 	std::vector<std::vector<size_t>> iperms;
diff --git a/include/filtration/rips.hpp b/include/filtration/rips.hpp
index 4ea0bba..6392d82 100755
--- a/include/filtration/rips.hpp
+++ b/include/filtration/rips.hpp
@@ -75,7 +75,7 @@ void rips_edges(std::vector<T> &x, std::vector<size_t> &edges, std::vector<T> &t
 }
 
 // returns all pairs on n vertices
-std::vector<size_t> all_pairs(const size_t n) {
+inline std::vector<size_t> all_pairs(const size_t n) {
     size_t m = ((n-1)*n) / 2;
     std::vector<size_t> edges;
     edges.reserve(m);
diff --git a/include/homology/reduction.hpp b/include/homology/reduction.hpp
index cbc7619..8aa0345 100755
--- a/include/homology/reduction.hpp
+++ b/include/homology/reduction.hpp
@@ -390,7 +390,7 @@ void sparsify_basis(
 }
 
 // get clearing indices from pivots
-std::vector<size_t> get_clearing_inds(const p2c_type &p2c) {
+inline std::vector<size_t> get_clearing_inds(const p2c_type &p2c) {
 	std::vector<size_t> inds;
 	inds.reserve(p2c.size());
 	size_t i = 0;
diff --git a/include/linalg/pid.hpp b/include/linalg/pid.hpp
index d3b0d57..4eb2236 100755
--- a/include/linalg/pid.hpp
+++ b/include/linalg/pid.hpp
@@ -5,7 +5,7 @@
 #include "polynomial.hpp"
 
 
-int sgn(const int &a) {
+inline int sgn(const int &a) {
     return (a < 0) ? -1 : (a > 0) ? 1 : 0;
 }
 
diff --git a/include/multigraph/functors.hpp b/include/multigraph/functors.hpp
index da09a63..fd9e00b 100755
--- a/include/multigraph/functors.hpp
+++ b/include/multigraph/functors.hpp
@@ -21,7 +21,7 @@ Functors from one type of diagram to another
 
 namespace bats {
 
-Diagram<SimplicialComplex, CellularMap> Nerve(
+inline Diagram<SimplicialComplex, CellularMap> Nerve(
 	const Diagram<bats::Cover, std::vector<size_t>> &D,
 	const size_t dmax // maximum simplex dimension
 ) {
diff --git a/include/multigraph/multigraph.hpp b/include/multigraph/multigraph.hpp
index 3ef947c..65d352f 100755
--- a/include/multigraph/multigraph.hpp
+++ b/include/multigraph/multigraph.hpp
@@ -1,3 +1,4 @@
+#pragma once
 #include <vector>
 #include <iostream>
 
diff --git a/include/persistence/union_find.hpp b/include/persistence/union_find.hpp
index 2920739..1bc5407 100644
--- a/include/persistence/union_find.hpp
+++ b/include/persistence/union_find.hpp
@@ -1,3 +1,4 @@
+#pragma once
 #include <iostream>
 #include <vector>
 #include <utility>
@@ -18,7 +19,7 @@ Implementation that avoids recursive function calls
 
 Modified from https://github.com/stat37411/tda/blob/main/include/union_find.hpp
 */
-size_t find_parent(
+inline size_t find_parent(
     std::vector<size_t> &parent,
     size_t i
 ) {
diff --git a/include/quiver/sparse.hpp b/include/quiver/sparse.hpp
index 8775039..6cf72fb 100755
--- a/include/quiver/sparse.hpp
+++ b/include/quiver/sparse.hpp
@@ -575,7 +575,7 @@ std::vector<bar> barcode_from_barcode_form(
     return bars;
 }
 
-std::vector<PersistencePair<size_t>> bars_to_pairs(
+inline std::vector<PersistencePair<size_t>> bars_to_pairs(
     const std::vector<bar> &bars,
     size_t hdim
 ) {
diff --git a/include/topology/cover.hpp b/include/topology/cover.hpp
index 803067c..b1f7a83 100755
--- a/include/topology/cover.hpp
+++ b/include/topology/cover.hpp
@@ -171,7 +171,7 @@ produce bivariate cover of cover1, cover2
 i.e. restriction to diagonal in cover1 x cover2
 also return maps to cover1 and cover2 (extends to SimplicialMap on Nerves)
 */
-auto bivariate_cover(
+inline auto bivariate_cover(
 	const std::vector<std::set<size_t>> &cover1,
 	const std::vector<std::set<size_t>> &cover2
 ) {
diff --git a/include/topology/data_gen.hpp b/include/topology/data_gen.hpp
index 5177c61..c072506 100755
--- a/include/topology/data_gen.hpp
+++ b/include/topology/data_gen.hpp
@@ -248,7 +248,7 @@ DataSet<T> circle(
     generate 3-d cylinder that is I x S^1
     total number of points is n_len x n_cir
 */
-DataSet<double> gen_cylinder(
+inline DataSet<double> gen_cylinder(
     const size_t n_len,
     const size_t n_cir,
     const double rad=1.0
diff --git a/include/topology/extras.hpp b/include/topology/extras.hpp
index c9f52bf..bc5427d 100755
--- a/include/topology/extras.hpp
+++ b/include/topology/extras.hpp
@@ -21,7 +21,7 @@ struct triangle {
 };
 
 // diagram up to kth level
-Diagram<CellComplex, CellularMap> serpinski_diagram(
+inline Diagram<CellComplex, CellularMap> serpinski_diagram(
     size_t k
 ) {
 
diff --git a/include/topology/grid.hpp b/include/topology/grid.hpp
index c979b9e..da1696a 100644
--- a/include/topology/grid.hpp
+++ b/include/topology/grid.hpp
@@ -51,7 +51,7 @@ CpxT Freudenthal(size_t m, size_t n) {
 /**
 Cubical complex on 2-dimensional gird on m x n vertices
 */
-CubicalComplex Cube(size_t m, size_t n) {
+inline CubicalComplex Cube(size_t m, size_t n) {
     CubicalComplex X(2);
 
     for (size_t i = 0; i < m-1; ++i) {
@@ -103,7 +103,7 @@ CpxT Freudenthal(size_t n1, size_t n2, size_t n3) {
 /**
 Cubical complex on 3-dimensional gird on n1 x n2 x n3 vertices
 */
-CubicalComplex Cube(size_t n1, size_t n2, size_t n3) {
+inline CubicalComplex Cube(size_t n1, size_t n2, size_t n3) {
     CubicalComplex X(3);
 
     for (size_t i = 0; i < n1-1; ++i) {
@@ -229,7 +229,7 @@ Subset of Cubical complex of 3-dimensional grid on n1 x n2 x n3 vertices
 
 This function is useful for constructing zigzags through a grid
 */
-CubicalComplex Cube(
+inline CubicalComplex Cube(
     size_t, size_t, size_t, // dimensions of grid - not used
     size_t i0, size_t i1, // range of first index
     size_t j0, size_t j1, // range of second index
diff --git a/include/topology/inclusion.hpp b/include/topology/inclusion.hpp
index 3d5fd5e..95ecfef 100755
--- a/include/topology/inclusion.hpp
+++ b/include/topology/inclusion.hpp
@@ -24,7 +24,7 @@ std::vector<size_t> vertex_inclusion_map(const T1 &s, const T2 &t) {
     return i;
 }
 
-Diagram<std::set<size_t>, std::vector<size_t>> linear_subset_union_diagram(
+inline Diagram<std::set<size_t>, std::vector<size_t>> linear_subset_union_diagram(
 	std::vector<std::set<size_t>> &subsets
 ) {
 	Diagram<std::set<size_t>, std::vector<size_t>> SetDgm;
@@ -43,7 +43,7 @@ Diagram<std::set<size_t>, std::vector<size_t>> linear_subset_union_diagram(
 	return SetDgm;
 }
 
-Diagram<std::set<size_t>, std::vector<size_t>> linear_cover_intersection_diagram(
+inline Diagram<std::set<size_t>, std::vector<size_t>> linear_cover_intersection_diagram(
 	std::vector<std::set<size_t>> &cover
 ) {
 	Diagram<std::set<size_t>, std::vector<size_t>> SetDgm;
diff --git a/include/topology/nerve.hpp b/include/topology/nerve.hpp
index 56fa422..8ff552f 100755
--- a/include/topology/nerve.hpp
+++ b/include/topology/nerve.hpp
@@ -11,7 +11,7 @@ Nerve of a cover
 
 namespace bats {
 
-void add_dimension_recursive_nerve(
+inline void add_dimension_recursive_nerve(
 	SimplicialComplex &N,
 	std::vector<size_t> spx,
 	const bats::Cover &cover,
@@ -46,7 +46,7 @@ void add_dimension_recursive_nerve(
 /*
 Build nerve of cover up to dmax skeleton
 */
-SimplicialComplex Nerve(
+inline SimplicialComplex Nerve(
 	const bats::Cover &cover,
 	const size_t dmax
 ) {
diff --git a/include/util/barcode.hpp b/include/util/barcode.hpp
index 919afbd..97a1279 100755
--- a/include/util/barcode.hpp
+++ b/include/util/barcode.hpp
@@ -1,3 +1,4 @@
+#pragma once
 // barcode utilities
 #include <limits>
 #include <iostream>
diff --git a/include/util/common.hpp b/include/util/common.hpp
index 2e327b2..37e4e2d 100755
--- a/include/util/common.hpp
+++ b/include/util/common.hpp
@@ -10,8 +10,8 @@ const size_t NO_IND = std::numeric_limits<size_t>::max();
 
 // get global ops
 #ifdef BATS_OPCOUNT
-unsigned get_global_ops() {return field_ops;}
-void reset_global_ops() {field_ops = 0;}
+inline unsigned get_global_ops() {return field_ops;}
+inline void reset_global_ops() {field_ops = 0;}
 #endif
 
 }
diff --git a/include/util/io.hpp b/include/util/io.hpp
index 4898b49..c6b76a1 100755
--- a/include/util/io.hpp
+++ b/include/util/io.hpp
@@ -35,7 +35,7 @@ T parse_argv(
 }
 
 template<>
-std::string parse_argv(
+inline std::string parse_argv(
 	const int argc,
 	char** argv,
 	const std::string &&token,
diff --git a/include/util/permutation.hpp b/include/util/permutation.hpp
index 35fccd6..8ddabd3 100755
--- a/include/util/permutation.hpp
+++ b/include/util/permutation.hpp
@@ -282,7 +282,7 @@ inline void apply_iperm_swap(
 // return a vector ret of length n so that
 // ret[i] = index in inds if i in inds
 // ret[i] = NO_IND otherwise
-std::vector<size_t> partial_perm(const std::vector<size_t> &ind, const size_t n) {
+inline std::vector<size_t> partial_perm(const std::vector<size_t> &ind, const size_t n) {
     std::vector<size_t> ret(n, bats::NO_IND);
     for (size_t k = 0; k < ind.size(); k++) {
         ret[ind[k]] = k;
@@ -303,7 +303,7 @@ inline void sort_ind_by_perm(std::vector<size_t> &ind, const std::vector<size_t>
 }
 
 // fill indperm so that ind[ind_perm] is in perm order
-void fill_partial_sortperm(
+inline void fill_partial_sortperm(
     const std::vector<size_t> &ind,
     const std::vector<size_t> &perm,
     std::vector<size_t> &indperm
@@ -322,7 +322,7 @@ void fill_partial_sortperm(
 
 // sort so that ind1 is ordered by perm
 // apply same sort to ind2
-void sort_ind_pair_by_perm(
+inline void sort_ind_pair_by_perm(
     std::vector<size_t> &ind1,
     std::vector<size_t> &ind2,
     const std::vector<size_t> &perm
@@ -335,7 +335,7 @@ void sort_ind_pair_by_perm(
 
 
 // random permutation on n indices
-std::vector<size_t> rand_perm(const size_t n) {
+inline std::vector<size_t> rand_perm(const size_t n) {
 
     std::default_random_engine generator;
     std::uniform_real_distribution<float> distribution(0.0,1.0);
@@ -386,7 +386,7 @@ inline int perm_sign(const std::vector<T> &p) {
 // The following functions when called will not need to use bats::util::function_name
 
 // Return an identity permutation, k is its length
-std::vector<size_t> identity_perm(const size_t& k){
+inline std::vector<size_t> identity_perm(const size_t& k){
     std::vector<size_t> l(k);
     std::iota(l.begin(), l.end(), 0);
     return l;
@@ -446,7 +446,7 @@ std::vector<size_t> find_perm_from_vector(const std::vector<T> &v) {
 
 
 // get the permutation for permuting i-th element to the end
-std::vector<size_t> perm_to_the_end(const size_t& index, const size_t& length){
+inline std::vector<size_t> perm_to_the_end(const size_t& index, const size_t& length){
     std::vector<size_t> v;
     v.reserve(length);
 
@@ -460,7 +460,7 @@ std::vector<size_t> perm_to_the_end(const size_t& index, const size_t& length){
 // get the permutation for permuting elements, with their indices in a list, to the end
 // the index_list should be sorted
 // eg. passing ([1,3],5) will return [0,2,4,1,3]
-std::vector<size_t> perm_to_the_end(const std::vector<size_t>& index_list, const size_t& length){
+inline std::vector<size_t> perm_to_the_end(const std::vector<size_t>& index_list, const size_t& length){
     std::vector<size_t> v;
     v.reserve(length);
     auto it = index_list.begin();
@@ -487,7 +487,7 @@ std::vector<size_t> perm_to_the_end(const std::vector<size_t>& index_list, const
 // extend a permutation to a desired length
 // with the elements appended unmoved, e.g.
 // eg., passing ([2,0,1], 6) return [2,0,1,3,4,5]
-std::vector<size_t> extension_perm(const std::vector<size_t>& perm, const size_t& length){
+inline std::vector<size_t> extension_perm(const std::vector<size_t>& perm, const size_t& length){
     if(!perm.empty()){
         std::vector<size_t> v;
         v.reserve(length);
diff --git a/include/util/set.hpp b/include/util/set.hpp
index 108fe14..b7bb0ea 100755
--- a/include/util/set.hpp
+++ b/include/util/set.hpp
@@ -44,7 +44,7 @@ std::set<size_t> set_intersection(const C1 &a, const C2 &b) {
 }
 
 // random subset of n numbers of size ns
-std::set<size_t> random_subset(
+inline std::set<size_t> random_subset(
 	const size_t n,
 	const size_t ns
 ) {
diff --git a/include/zigzag/zigzag_filtration.hpp b/include/zigzag/zigzag_filtration.hpp
index 8dbfa53..33b2271 100755
--- a/include/zigzag/zigzag_filtration.hpp
+++ b/include/zigzag/zigzag_filtration.hpp
@@ -385,7 +385,7 @@ compare simplex i in dimension dimi with simplex j in dimension dimj
 @param j index of second simplex
 @return true if first simplex < second simplex, false otherwise
 */
-bool lex_cmp(
+inline bool lex_cmp(
 	const bats::SimplicialComplex& X,
 	size_t dimi, size_t i, size_t dimj, size_t j
 ) {
@@ -407,7 +407,7 @@ bool lex_cmp(
 }
 
 // reverse of above
-bool rlex_cmp(
+inline bool rlex_cmp(
 	const bats::SimplicialComplex& X,
 	size_t dimi, size_t i, size_t dimj, size_t j
 ) {
-- 
2.43.0


From 60143e74f8f7db6c0326459970c35b8ca81f0815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:52 +0000
Subject: [PATCH 25/62] fix: SparseVector::tensor called itself; ColumnMatrix
 tensor_product uses the Kronecker product of the columns

---
 include/linalg/col_matrix.hpp    | 2 +-
 include/linalg/sparse_vector.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index ae02771..eca9580 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -1079,7 +1079,7 @@ public:
 		std::vector<TC> newcol;
 		for (size_t i = 0; i < An; i++) {
 			for (size_t j = 0; j < Bn; j++) {
-				newcol.emplace_back(A[j].tensor(B[j]));
+				newcol.emplace_back(A[i].tensor(B[j], Bm));
 			}
 		}
 		return ColumnMatrix(Am * Bm, An * Bn, newcol);
diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index d6364c4..200f367 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -1237,5 +1237,5 @@ public:
 		}
 		return SparseVector(nzs);
 	}
-	inline SparseVector tensor(const SparseVector& other, size_t m) const {return tensor(other, m);}
+	inline SparseVector tensor(const SparseVector& other, size_t m) const {return kron(other, m);}
 };
-- 
2.43.0


From 11c3b3c257db39e4b340456dda40953f482465fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:16 +0000
Subject: [PATCH 26/62] fix: ColumnMatrix::add_rows and schur_complement did
 not compile

---
 include/linalg/col_matrix.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index eca9580..dc6800b 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -671,7 +671,7 @@ public:
 
 	void add_rows(const size_t i, const val_type& c, const size_t i2) {
 		for (size_t j = 0; j < ncol(); j++) {
-			col[j].add_rows(i, c, i2);
+			col[j].mix_rows(i, i2, val_type(1), c, val_type(0), val_type(1)); // v[i] <- v[i] + c * v[i2]
 		}
 	}
 
@@ -857,11 +857,12 @@ public:
 
 	// schur complement of i,j entry
 	inline void schur_complement(size_t i, size_t j) {
+		tmp_type tmp; // for use with axpy
 		auto a11 = col[j][i];
 		for (size_t j1 = j+1; j1 < n; j1++) {
 			auto c = col[j1][i];
 			if (c != 0) {
-				col[j1].axpy(-c / a11, col[j], i+1, m);
+				col[j1].axpy(-c / a11, col[j], i+1, m, tmp);
 			}
 		}
 	}
-- 
2.43.0


From 2a0fa5d4e670a558d492884d033e3330e1f71d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:05 +0000
Subject: [PATCH 27/62] fix: a refused cell writes no filtration value (wrote
 out of range at NO_IND)

---
 include/filtration/filtration.hpp    | 3 +++
 include/zigzag/zigzag_filtration.hpp | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/include/filtration/filtration.hpp b/include/filtration/filtration.hpp
index b11a4d6..b344569 100755
--- a/include/filtration/filtration.hpp
+++ b/include/filtration/filtration.hpp
@@ -139,6 +139,7 @@ public:
 	template <class ...Ts>
 	inline cell_ind add(TF t, Ts (&...args)) {
 		cell_ind ret = X.add(args...);
+		if (ret.ind == bats::NO_IND) { return ret; } // cell was not added
 		reserve(ret.dim, ret.ind+1);
 		val[ret.dim][ret.ind] = t;
 		return ret;
@@ -153,6 +154,7 @@ public:
 	template <class ...Ts>
 	inline cell_ind add_directed(TF t, Ts (&...args)) {
 		cell_ind ret = X.add_directed(args...);
+		if (ret.ind == bats::NO_IND) { return ret; } // cell was not added
 		reserve(ret.dim, ret.ind+1);
 		val[ret.dim][ret.ind] = t;
 		return ret;
@@ -184,6 +186,7 @@ public:
 			for (size_t i=0; i < F2.X.ncells(dim); ++i) {
 				F2.X.get_simplex(dim, i, s);
 				auto ci = X.add(s);
+				if (ci.ind == bats::NO_IND) { continue; } // cell was not added
 				reserve(dim, ci.ind+1);
 				val[dim][ci.ind] = F2.val[dim][i];
 			}
diff --git a/include/zigzag/zigzag_filtration.hpp b/include/zigzag/zigzag_filtration.hpp
index 33b2271..715b886 100755
--- a/include/zigzag/zigzag_filtration.hpp
+++ b/include/zigzag/zigzag_filtration.hpp
@@ -105,12 +105,14 @@ public:
 	template <class ...Ts>
 	inline cell_ind add(const T entry, const T exit, Ts (&...args)) {
 		cell_ind ret = X.add(args...);
+		if (ret.ind == bats::NO_IND) { return ret; } // cell was not added
 		reserve(ret.dim, ret.ind+1);
 		val[ret.dim][ret.ind].emplace_back(std::make_pair(entry, exit));
 		return ret;
 	}
 	inline cell_ind add(const T entry, const T exit, std::vector<size_t>&& s) {
 		cell_ind ret = X.add(s);
+		if (ret.ind == bats::NO_IND) { return ret; } // cell was not added
 		reserve(ret.dim, ret.ind+1);
 		val[ret.dim][ret.ind].emplace_back(std::make_pair(entry, exit));
 		return ret;
-- 
2.43.0


From 4d8dd9221798c2c6d6a9f214d29cb43bf9310228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:05 +0000
Subject: [PATCH 28/62] fix: flag complexes respect maxdim 0 and 1, sort their
 edges; CompleteFlagFiltration returns the complex it filled

---
 include/filtration/flag.hpp | 15 ++++++++++++---
 include/topology/flag.hpp   |  3 +++
 include/topology/nerve.hpp  |  1 +
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/filtration/flag.hpp b/include/filtration/flag.hpp
index d5b525d..ac605c7 100755
--- a/include/filtration/flag.hpp
+++ b/include/filtration/flag.hpp
@@ -302,6 +302,8 @@ Filtration<T, CpxT> FlagFiltration(
         F.add(t0, spx_idxs); // don't need to try to pair since 0-cells
     }
 
+    if (maxdim == 0) { return F; } // vertices only
+
     std::vector<std::vector<size_t>> nbrs(n);
 
     spx_idxs.resize(2); // now time to add edges
@@ -367,6 +369,8 @@ auto FlagFiltration_extension(
         inds[0].emplace_back(k);
     }
 
+    if (maxdim == 0) { return std::make_tuple(F, inds); } // vertices only
+
     std::vector<std::vector<size_t>> nbrs(n);
 
     spx_idxs.resize(2); // now time to add edges
@@ -428,7 +432,8 @@ std::tuple<SimplicialComplex, Filtration<T, SimplicialComplex>> CompleteFlagFilt
     assert (m == (n * (n-1)) / 2);
 
     // precompute dimensions
-    std::vector<size_t> dims = {n, m};
+    std::vector<size_t> dims = {n};
+    if (maxdim > 0) { dims.push_back(m); }
     for (size_t d = 2; d < maxdim+1; d++) {
         // recursive computation of binomial coefficient
         dims.push_back(
@@ -449,6 +454,8 @@ std::tuple<SimplicialComplex, Filtration<T, SimplicialComplex>> CompleteFlagFilt
         F.add(t0, spx_idxs); // don't need to try to pair since 0-cells
     }
 
+    if (maxdim == 0) { return std::make_tuple(F.complex(), F); } // vertices only
+
     std::vector<std::vector<size_t>> nbrs(n);
 
     spx_idxs.resize(2); // now time to add edges
@@ -471,10 +478,12 @@ std::tuple<SimplicialComplex, Filtration<T, SimplicialComplex>> CompleteFlagFilt
         nbrs[j].emplace_back(i);
         std::sort(nbrs[j].begin(), nbrs[j].end());
 
-        add_dimension_recursive_flag_unsafe(F, nbrs, 2, maxdim, iter_idxs, spx_idxs, t[k]);
+        if (!iter_idxs.empty() && maxdim > 1) {
+            add_dimension_recursive_flag_unsafe(F, nbrs, 2, maxdim, iter_idxs, spx_idxs, t[k]);
+        }
     }
 
-    return std::make_tuple(X, F);
+    return std::make_tuple(F.complex(), F);
 }
 
 } // namespace bats
diff --git a/include/topology/flag.hpp b/include/topology/flag.hpp
index 3411dee..6133316 100755
--- a/include/topology/flag.hpp
+++ b/include/topology/flag.hpp
@@ -81,6 +81,8 @@ CpxT FlagComplex(
         X.add(spx_idxs);
     }
 
+    if (maxdim == 0) { return X; } // vertices only
+
     std::vector<std::vector<size_t>> nbrs(n);
 
     spx_idxs.resize(2); // now time to add edges
@@ -92,6 +94,7 @@ CpxT FlagComplex(
         size_t j = edges[2*k + 1];
         spx_idxs[0] = i;
         spx_idxs[1] = j;
+        std::sort(spx_idxs.begin(), spx_idxs.end());
         X.add(spx_idxs);
         // std::cout << ret.second << std::endl;
         bats::util::intersect_sorted(nbrs[i], nbrs[j], iter_idxs);
diff --git a/include/topology/nerve.hpp b/include/topology/nerve.hpp
index 8ff552f..bda420c 100755
--- a/include/topology/nerve.hpp
+++ b/include/topology/nerve.hpp
@@ -60,6 +60,7 @@ inline SimplicialComplex Nerve(
 	for (size_t i = 0; i < cover.size(); i++) {
 		// add 0-simplex i
 		N.add({i});
+		if (dmax == 0) { continue; } // vertices only
 
 		for (size_t j = 0; j < i; j++) {
 			// check to add edge between i and j
-- 
2.43.0


From e3290918f0de70667a3cc8e07cf336562d88f4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:05 +0000
Subject: [PATCH 29/62] fix: witness edge parameters read past the landmarks,
 left the diagonal unset; lazy witness complexes did not compile

---
 include/topology/dowker.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/topology/dowker.hpp b/include/topology/dowker.hpp
index 91e07a2..70c1a9c 100755
--- a/include/topology/dowker.hpp
+++ b/include/topology/dowker.hpp
@@ -82,7 +82,7 @@ Matrix<T> dowker_edge_param(
         for (size_t i = 0; i < j; i++) {
             R(i,j) = R(j,i); // symmetry
         }
-        for (size_t i = j+1; i < nL; i++) {
+        for (size_t i = j; i < nL; i++) {
             R(i,j) = dowker_edge_param(pdist, i, j);
         }
     }
@@ -108,7 +108,7 @@ Matrix<T> witness_edge_param(
 
     // loop over pdist, subtract m[j] from each column, take max with 0
     for (size_t j = 0; j < nX; j++) {
-        for (size_t i = 0; i < nX; i++) {
+        for (size_t i = 0; i < pdist.nrow(); i++) {
             pdist(i,j) -= m[j];
             pdist(i,j) = (pdist(i,j) > T(0)) ? pdist(i,j) : T(0);
         }
@@ -164,7 +164,7 @@ std::vector<size_t> witness_edges(
     for (size_t i = 0; i < n; i++) {
         for (size_t j = 0; j < i; j++) {
 
-            intersect_sorted(nbrs[i], nbrs[j], intersection);
+            bats::util::intersect_sorted(nbrs[i], nbrs[j], intersection);
             if (intersection.size() > 0) {
                 edges.push_back(j);
                 edges.push_back(i);
@@ -226,7 +226,7 @@ SimplicialComplex WitnessComplex(
     const size_t dmax
 ) {
     auto pdist = witness_edge_param(X, L, dist, nu);
-    return RipsComplex(pdist, rmax, dmax);
+    return RipsComplex<SimplicialComplex>(pdist, rmax, dmax);
 }
 
 template <typename T, typename M>
-- 
2.43.0


From e0c97c620858340827e0acde739b3dafb34093e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:05 +0000
Subject: [PATCH 30/62] fix: linear_cover_intersection_diagram attached its
 arrows to the wrong node

---
 include/topology/inclusion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/inclusion.hpp b/include/topology/inclusion.hpp
index 95ecfef..a1b0b16 100755
--- a/include/topology/inclusion.hpp
+++ b/include/topology/inclusion.hpp
@@ -51,7 +51,7 @@ inline Diagram<std::set<size_t>, std::vector<size_t>> linear_cover_intersection_
 	    auto i1 = SetDgm.add_node(cover[i]);
 	    if (i > 0) {
 	        // add arrow from inclusion
-	        SetDgm.add_edge(i1-1, i, vertex_inclusion_map(SetDgm.node[i1-1], SetDgm.node[i1]));
+	        SetDgm.add_edge(i1-1, i1, vertex_inclusion_map(SetDgm.node[i1-1], SetDgm.node[i1]));
 	    }
 	    if (i == (cover.size() - 1)) { break; }
 	    auto i2 = SetDgm.add_node(bats::util::set_intersection(cover[i], cover[i+1]));
-- 
2.43.0


From 0cfb02d5a06f8ebc193b9a9778e33fecb3fbea9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:05 +0000
Subject: [PATCH 31/62] fix: zigzag_toplex kept the last pixel instead of the
 largest as removal value of an edge

---
 include/topology/levelset.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/topology/levelset.hpp b/include/topology/levelset.hpp
index 5191f94..aed4039 100644
--- a/include/topology/levelset.hpp
+++ b/include/topology/levelset.hpp
@@ -85,19 +85,19 @@ zigzag::ZigzagFiltration<CubicalComplex, T> zigzag_toplex(
                 d = std::numeric_limits<T>::lowest();
                 if (j > 0 && k > 0) {
                     b = std::min(b, img[i][j-1][k-1]);
-                    d = std::max(b, img[i][j-1][k-1]);
+                    d = std::max(d, img[i][j-1][k-1]);
                 }
                 if (j < n2-1 && k < n3-1) {
                     b = std::min(b, img[i][j][k]);
-                    d = std::max(b, img[i][j][k]);
+                    d = std::max(d, img[i][j][k]);
                 }
                 if (j > 0 && k < n3-1) {
                     b = std::min(b, img[i][j-1][k]);
-                    d = std::max(b, img[i][j-1][k]);
+                    d = std::max(d, img[i][j-1][k]);
                 }
                 if (j < n2-1 && k > 0) {
                     b = std::min(b, img[i][j][k-1]);
-                    d = std::max(b, img[i][j][k-1]);
+                    d = std::max(d, img[i][j][k-1]);
                 }
                 X.add(b, d, {i, i+1, j, j, k, k});
             }
@@ -111,19 +111,19 @@ zigzag::ZigzagFiltration<CubicalComplex, T> zigzag_toplex(
                 d = std::numeric_limits<T>::lowest();
                 if (i > 0 && k > 0) {
                     b = std::min(b, img[i-1][j][k-1]);
-                    d = std::max(b, img[i-1][j][k-1]);
+                    d = std::max(d, img[i-1][j][k-1]);
                 }
                 if (i < n1-1 && k < n3-1) {
                     b = std::min(b, img[i][j][k]);
-                    d = std::max(b, img[i][j][k]);
+                    d = std::max(d, img[i][j][k]);
                 }
                 if (i > 0 && k < n3-1) {
                     b = std::min(b, img[i-1][j][k]);
-                    d = std::max(b, img[i-1][j][k]);
+                    d = std::max(d, img[i-1][j][k]);
                 }
                 if (i < n1-1 && k > 0) {
                     b = std::min(b, img[i][j][k-1]);
-                    d = std::max(b, img[i][j][k-1]);
+                    d = std::max(d, img[i][j][k-1]);
                 }
                 X.add(b, d, {i, i, j, j+1, k, k});
             }
@@ -137,19 +137,19 @@ zigzag::ZigzagFiltration<CubicalComplex, T> zigzag_toplex(
                 d = std::numeric_limits<T>::lowest();
                 if (i > 0 && j > 0) {
                     b = std::min(b, img[i-1][j-1][k]);
-                    d = std::max(b, img[i-1][j-1][k]);
+                    d = std::max(d, img[i-1][j-1][k]);
                 }
                 if (i < n1-1 && j < n2-1) {
                     b = std::min(b, img[i][j][k]);
-                    d = std::max(b, img[i][j][k]);
+                    d = std::max(d, img[i][j][k]);
                 }
                 if (i > 0 && j < n2-1) {
                     b = std::min(b, img[i-1][j][k]);
-                    d = std::max(b, img[i-1][j][k]);
+                    d = std::max(d, img[i-1][j][k]);
                 }
                 if (i < n1-1 && j > 0) {
                     b = std::min(b, img[i][j-1][k]);
-                    d = std::max(b, img[i][j-1][k]);
+                    d = std::max(d, img[i][j-1][k]);
                 }
                 X.add(b, d, {i, i, j, j, k, k+1});
             }
-- 
2.43.0


From 76d463d74927e0f765ab4c4897f7086545d730a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:05 +0000
Subject: [PATCH 32/62] fix: RPCosineDist computed the cosine distance, angles
 of (anti)parallel vectors were NaN

---
 include/topology/metric.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/topology/metric.hpp b/include/topology/metric.hpp
index d83e38c..e7d103a 100755
--- a/include/topology/metric.hpp
+++ b/include/topology/metric.hpp
@@ -128,7 +128,7 @@ struct CosineDist : AbstractMetric<CosineDist> {
 };
 
 // Cosine metric 1 - cos(x,y) = 1 - x^T y / ||x||*||y||
-struct RPCosineDist : AbstractMetric<CosineDist> {
+struct RPCosineDist : AbstractMetric<RPCosineDist> {
 
     template <typename T>
     T dist (const VectorView<T> &x, const VectorView<T> &y) const {
@@ -159,7 +159,7 @@ struct AngleDist : AbstractMetric<AngleDist> {
             ny += (y(i) * y(i));
         }
         T cxy = ip / (std::sqrt(nx) * std::sqrt(ny)); // cosine of angle
-        return std::acos(cxy > T(1) ? T(1) : cxy);
+        return std::acos(cxy > T(1) ? T(1) : (cxy < T(-1) ? T(-1) : cxy));
     }
 };
 
@@ -178,7 +178,7 @@ struct RPAngleDist : AbstractMetric<RPAngleDist> {
         }
         ip = std::abs(ip); // positive inner produce minimizes distance between RP representatives
         T cxy = ip / (std::sqrt(nx) * std::sqrt(ny)); // cosine of angle
-        return std::acos(cxy);
+        return std::acos(cxy > T(1) ? T(1) : cxy);
     }
 
 };
-- 
2.43.0


From d7d82730d6ef6ebd549faee21e2298eb550b93d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:05 +0000
Subject: [PATCH 33/62] fix: zigzag extensions took the maximum with the
 smallest positive number; extend_levelset did not compile

---
 include/zigzag/extension.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/zigzag/extension.hpp b/include/zigzag/extension.hpp
index 2099436..e18277d 100755
--- a/include/zigzag/extension.hpp
+++ b/include/zigzag/extension.hpp
@@ -19,7 +19,7 @@ std::pair<T,T> simplex_extrema(
     const Iterator& end,
     const std::vector<T>& f0
 ) {
-    T cmax = std::numeric_limits<T>::min();
+    T cmax = std::numeric_limits<T>::lowest();
     T cmin = std::numeric_limits<T>::max();
     while (it != end) {
         cmin = std::min(cmin, f0[*it]);
@@ -102,7 +102,7 @@ std::pair<T,T> cube_extrema(
     const std::vector<size_t>& cube,
     const size_t n
 ) {
-    T cmax = std::numeric_limits<T>::min();
+    T cmax = std::numeric_limits<T>::lowest();
     T cmin = std::numeric_limits<T>::max();
     for (auto i : {0,1}) {
         for (auto j : {2,3}) {
@@ -130,7 +130,7 @@ complex.  The filtration progresses from low to high values.
 @return val vector of vector of pairs holding zigzag filtration values for each cube.
 */
 template <typename T>
-std::vector<std::vector<std::pair<T,T>>> extend_levelset(
+std::vector<std::vector<std::vector<std::pair<T,T>>>> extend_levelset(
     const std::vector<T>& f0, // function on vertices
     const CubicalComplex& X,
     const T eps,
-- 
2.43.0


From eaa6a5e595f93b5957b243c38c92b24c1346213d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:05 +0000
Subject: [PATCH 34/62] fix: uniform_interval_cover cast a negative offset to
 an unsigned bin

---
 include/topology/cover.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/topology/cover.hpp b/include/topology/cover.hpp
index b1f7a83..9e58ac8 100755
--- a/include/topology/cover.hpp
+++ b/include/topology/cover.hpp
@@ -28,6 +28,7 @@ using Cover = std::vector<std::set<size_t>>;
 template <typename T>
 int assign_set_lower(const T v, const T min_val, const double bin_width, const size_t nsets) {
 	double offset = (v - min_val) / bin_width;
+	if (offset < 0) { return -1; } // not in any set
 	size_t bin = (size_t) floor(offset) * 2;
 	if (!(bin < nsets)) {
 		return -1;
@@ -39,6 +40,7 @@ int assign_set_lower(const T v, const T min_val, const double bin_width, const s
 template <typename T>
 int assign_set_upper(const T v, const T min_val, const double bin_width, const size_t nsets) {
 	double offset = (v - min_val) / bin_width - 0.5;
+	if (offset < 0) { return -1; } // below the first upper set
 	size_t bin = 1 + (size_t) floor(offset) * 2;
 	if (!(bin > 0) || !(bin < nsets)) {
 		return -1;
-- 
2.43.0


From 4925c8d85e34334aa85974ff818c4279d2661446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:05 +0000
Subject: [PATCH 35/62] fix: read_point_cloud built the transposed matrix,
 overflowed on ragged rows

---
 include/topology/data.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/topology/data.hpp b/include/topology/data.hpp
index 79d9926..79a8108 100755
--- a/include/topology/data.hpp
+++ b/include/topology/data.hpp
@@ -50,12 +50,13 @@ Matrix<T> read_point_cloud(std::string &fname, bool header=false) {
 	} else {
 		std::cerr << "unable to open " << fname << std::endl;
 	}
+	if (data.size() != m*n) { throw std::runtime_error("inconsistent number of columns in " + fname); }
 	T* newmat = new T[m*n];
 	T* it = newmat;
 	for (auto x : data) {
 		*it++ = x;
 	}
-	return Matrix<T>(n, m, newmat); // swap rows and columns for col major format
+	return Matrix<T>(m, n, newmat); // row major: one row per point
 }
 
 
-- 
2.43.0


From 401a657dfe314b6eef7c4af44217ff23ee17d9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:01 +0000
Subject: [PATCH 36/62] fix: levelsets of a zigzag filtration dropped the cells
 that live through the whole window (and with them their cofaces)

---
 include/zigzag/zigzag_filtration.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/zigzag/zigzag_filtration.hpp b/include/zigzag/zigzag_filtration.hpp
index 715b886..cc7e62e 100755
--- a/include/zigzag/zigzag_filtration.hpp
+++ b/include/zigzag/zigzag_filtration.hpp
@@ -157,9 +157,11 @@ public:
 		// loop over dimension
 		for (size_t k = 0; k < X.maxdim() + 1; ++k) {
 			for (size_t i = 0; i < X.ncells(k); ++i) {
-				// assume only one interval
-				if ((s0 < val[k][i][0].first && val[k][i][0].first < s1) || (s0 < val[k][i][0].second && val[k][i][0].second < s1)) {
-					Y.add(X.get_cell(k, i));
+				for (auto& bd : val[k][i]) {
+					if (bd.first <= s1 && bd.second >= s0) {
+						Y.add(X.get_cell(k, i));
+						break;
+					}
 				}
 			}
 		}
-- 
2.43.0


From 22227dceda710a996499bcab0f423c91c440646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:41 +0000
Subject: [PATCH 37/62] fix: mayer_vietoris_boundary built columns with
 unsorted indices

---
 include/topology/mayer_vietoris.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/topology/mayer_vietoris.hpp b/include/topology/mayer_vietoris.hpp
index 084e8e1..0f09678 100755
--- a/include/topology/mayer_vietoris.hpp
+++ b/include/topology/mayer_vietoris.hpp
@@ -2,6 +2,7 @@
 
 #include <complex/simplicial_complex.hpp>
 #include <vector>
+#include <tuple>
 
 namespace bats {
 
@@ -29,8 +30,7 @@ auto mayer_vietoris_boundary(
     col.reserve(n);
     std::vector<size_t> face;
     face.reserve(k+1);
-    std::vector<size_t> inds;
-    std::vector<int> vals;
+    std::vector<std::tuple<size_t, int>> ival; // sorted by the constructor of the column
 
     for (auto& s : X.get_simplices(k+1)) {
         if (A.find_idx(s) != bats::NO_IND) {
@@ -39,8 +39,7 @@ auto mayer_vietoris_boundary(
             // loop over faces in lexicographical order
             size_t dim = k+1;
             size_t spx_len = dim + 1;
-            inds.clear();
-            vals.clear();
+            ival.clear();
             for (size_t i = 0; i < spx_len; i++) {
 
                 size_t i2 = dim-i; // index to skip
@@ -55,12 +54,11 @@ auto mayer_vietoris_boundary(
                 size_t ind = Y.find_idx(face);
                 // if face is in Y, add it to boundary
                 if (ind != bats::NO_IND) {
-                    inds.emplace_back(ind);
-                    vals.emplace_back(c);
+                    ival.emplace_back(std::make_tuple(ind, c));
                 }
                 c = -c;
             }
-            col.emplace_back(TC(inds, vals));
+            col.emplace_back(TC(ival));
 
         } else {
             // boundary is 0
-- 
2.43.0


From 5b22905c051ac87d571f7fbd371568f1820bfe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:41 +0000
Subject: [PATCH 38/62] fix: serpinski_diagram subdivided the third side of a
 triangle with an inner edge, in unsorted order

---
 include/topology/extras.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/extras.hpp b/include/topology/extras.hpp
index bc5427d..bab49ed 100755
--- a/include/topology/extras.hpp
+++ b/include/topology/extras.hpp
@@ -101,7 +101,7 @@ inline Diagram<CellComplex, CellularMap> serpinski_diagram(
 
             col1[tri.ab] = Vint({t1.ab, t2.ab}, {1, 1});
             col1[tri.bc] = Vint({t2.bc, t3.bc}, {1, 1});
-            col1[tri.ca] = Vint({t2.ca, t1.ca}, {1, 1});
+            col1[tri.ca] = Vint({t1.ca, t3.ca}, {1, 1});
 
             tri_bdry.emplace_back(Vint({t1.bc, t2.ca, t3.ab}, {-1, -1, -1}));
         }
-- 
2.43.0


From 94c9b0e75b472e08baa303dd35fbe625ed8eee3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:41 +0000
Subject: [PATCH 39/62] fix: greedy_landmarks did not terminate with fewer than
 k distinct points

---
 include/topology/landmark.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/topology/landmark.hpp b/include/topology/landmark.hpp
index 1f31d14..88be091 100755
--- a/include/topology/landmark.hpp
+++ b/include/topology/landmark.hpp
@@ -52,8 +52,8 @@ DataSet<T> greedy_landmarks(
 		auto it = std::max_element(d.cbegin(), d.cend());
 		size_t i = std::distance(d.cbegin(), it);
 
-		// insert point
-		inds.insert(i);
+		// insert point; no further point is left when the furthest one is already a landmark
+		if (!inds.insert(i).second) { break; }
 
 		// get all distances
 		std::vector<T> di = dist(D[i], D);
-- 
2.43.0


From 3c8ce05a4f695730310bd1e76e70043c27dc49fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:43 +0000
Subject: [PATCH 40/62] fix: union_find_pairs read values of an unsorted
 filtration at filtration positions, and compared births as float

---
 include/persistence/union_find.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/persistence/union_find.hpp b/include/persistence/union_find.hpp
index 1bc5407..b28f16b 100644
--- a/include/persistence/union_find.hpp
+++ b/include/persistence/union_find.hpp
@@ -56,7 +56,9 @@ std::vector<PersistencePair<T>> union_find_pairs(
 	// first get boundary in dimension 1
 	// assumed to be sorted in filtration order
 	auto& B = F.complex()[1];
+	// values are stored in original order
 	auto& vals = F.vals();
+	auto& perm = F.perm;
 
 	size_t N = B.nrow();
 	size_t M = B.ncol();
@@ -71,9 +73,9 @@ std::vector<PersistencePair<T>> union_find_pairs(
 	for (size_t k = 0; k < N; ++k) {
 		pairs.emplace_back(PersistencePair(
 			0,
-			k,
+			perm[0][k],
 			bats::NO_IND,
-			vals[0][k],
+			vals[0][perm[0][k]],
 			std::numeric_limits<T>::infinity()
 		));
 	}
@@ -95,13 +97,13 @@ std::vector<PersistencePair<T>> union_find_pairs(
 		if (pi == pj) { continue; }
 
 		// get birth times in filtration order
-		float bi = pairs[pi].birth;
-		float bj = pairs[pj].birth;
+		T bi = pairs[pi].birth;
+		T bj = pairs[pj].birth;
 		if (bi < bj) {
 			// component with j merges into component with i
 			// kill bar at pj
-			pairs[pj].death_ind = k;
-			pairs[pj].death = vals[1][k];
+			pairs[pj].death_ind = perm[1][k];
+			pairs[pj].death = vals[1][perm[1][k]];
 
 			// merge components
 			parent[pj] = pi;
@@ -109,8 +111,8 @@ std::vector<PersistencePair<T>> union_find_pairs(
 		} else {
 			// component with i merges into component with j
 			// kill bar at pi
-			pairs[pi].death_ind = k;
-			pairs[pi].death = vals[1][k];
+			pairs[pi].death_ind = perm[1][k];
+			pairs[pi].death = vals[1][perm[1][k]];
 
 			// merge components
 			parent[pi] = pj;
-- 
2.43.0


From d5518132666f1cff7679f95e146f0503df737dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:47 +0000
Subject: [PATCH 41/62] fix: persistence_pairs_vec of a reduced DG space
 ignored the permuted argument

---
 include/persistence/filtered_dgbasis.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/persistence/filtered_dgbasis.hpp b/include/persistence/filtered_dgbasis.hpp
index c821ad9..8ad8815 100644
--- a/include/persistence/filtered_dgbasis.hpp
+++ b/include/persistence/filtered_dgbasis.hpp
@@ -34,11 +34,16 @@ struct ReducedFilteredDGVectorSpace {
 	persistence pairs in dimension k
 
 	@param k	homology dimension
+	@param permuted	set to true to return critical indices permuted by filtration parameter
+	set to false to return with indices in original order.  Default: false
 	*/
 	std::vector<PersistencePair<T>> persistence_pairs(
-		const size_t k
+		const size_t k,
+		const bool permuted=false
 	)const {
 		std::vector<PersistencePair<T>> pairs;
+		// critical index of cell i in dimension d
+		auto crit_ind = [&](size_t d, size_t i) { return permuted ? i : perm[d][i]; };
 		if (RC.degree == -1) {
 			pairs.reserve(RC.R[k].ncol());
 			for (size_t i =0; i < dim(k); i++) {
@@ -47,7 +52,7 @@ struct ReducedFilteredDGVectorSpace {
 					if (k == maxdim() || RC.p2c[k+1][i] == bats::NO_IND)  {
 						// infinite bar.
 						pairs.emplace_back(
-							PersistencePair<T>(k, perm[k][i], bats::NO_IND,
+							PersistencePair<T>(k, crit_ind(k, i), bats::NO_IND,
 								val[k][perm[k][i]], std::numeric_limits<T>::infinity()
 							)
 						);
@@ -55,7 +60,7 @@ struct ReducedFilteredDGVectorSpace {
 						size_t j = RC.p2c[k+1][i];
 						// finite bar
 						pairs.emplace_back(
-							PersistencePair<T>(k, perm[k][i], perm[k+1][j],
+							PersistencePair<T>(k, crit_ind(k, i), crit_ind(k+1, j),
 								val[k][perm[k][i]], val[k+1][perm[k+1][j]]
 							)
 						);
@@ -77,8 +82,8 @@ struct ReducedFilteredDGVectorSpace {
 					pairs.emplace_back(
 						PersistencePair<T>(
 							k,
-							perm[k][i], // birth in filtration is cohomology death
-							perm[k+1][j], // death in filtration is cohomology birth
+							crit_ind(k, i), // birth in filtration is cohomology death
+							crit_ind(k+1, j), // death in filtration is cohomology birth
 							val[k][perm[k][i]], // birth in filtration is cohomology death
 							val[k+1][perm[k+1][j]] // death in filtration is cohomology birth
 						)
@@ -90,7 +95,7 @@ struct ReducedFilteredDGVectorSpace {
 						pairs.emplace_back(
 							PersistencePair<T>(
 								k,
-								perm[k][i],
+								crit_ind(k, i),
 								bats::NO_IND,
 								val[k][perm[k][i]],
 								std::numeric_limits<T>::infinity()
@@ -145,7 +150,7 @@ struct ReducedFilteredDGVectorSpace {
 		const size_t k,
 		const bool permuted=false
 	) const {
-		std::vector<PersistencePair<T>> pairs = persistence_pairs(k);
+		std::vector<PersistencePair<T>> pairs = persistence_pairs(k, permuted);
 		std::vector<T> bd(2*pairs.size());
 		std::vector<size_t> inds(2*pairs.size());
 		for (size_t i = 0; i < pairs.size(); ++i) {
-- 
2.43.0


From 2c6435571fc7acb35edea47269716b708f69877e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:28 +0000
Subject: [PATCH 42/62] fix: smith normal form used an iterator that mix_cols
 had invalidated

---
 include/linalg/pid.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/linalg/pid.hpp b/include/linalg/pid.hpp
index 4eb2236..06176de 100755
--- a/include/linalg/pid.hpp
+++ b/include/linalg/pid.hpp
@@ -94,9 +94,9 @@ void smith_normal_form(ColumnMatrix<TC> &A) {
         bool continue_reduction = true;
         while (continue_reduction) {
             // first, we loop over columns to the right
-            auto p = A[j].nzbegin();
             for (size_t j2 = j+1; j2 < A.ncol(); j2++) {
                 if (A[j2].nnz() > 0 && A[j2].firstnz().ind == j) {
+                    auto p = A[j].nzbegin(); // mix_cols invalidates iterators
                     auto [x, y, g, w, z] = extended_euclidean(p->val, A[j2].firstnz().val);
                     A.mix_cols(j, j2, x, -z, y, w);
                 }
@@ -104,7 +104,7 @@ void smith_normal_form(ColumnMatrix<TC> &A) {
 
             // now we loop over rows
             continue_reduction = false;
-            p = A[j].nzbegin();
+            auto p = A[j].nzbegin();
             auto rp = A[j].nzend() - 1;
             while (rp != p) {
                 auto [x, y, g, w, z] = extended_euclidean(p->val, rp->val);
@@ -215,9 +215,9 @@ SmithFact<TC> smith_factorization(const ColumnMatrix<TC> &A) {
         bool continue_reduction = true;
         while (continue_reduction) {
             // first, we loop over columns to the right
-            auto p = S[j].nzbegin();
             for (size_t j2 = j+1; j2 < S.ncol(); j2++) {
                 if (S[j2].nnz() > 0 && S[j2].firstnz().ind == j) {
+                    auto p = S[j].nzbegin(); // mix_cols invalidates iterators
                     auto [x, y, g, w, z] = extended_euclidean(p->val, S[j2].firstnz().val);
                     S.mix_cols(j, j2, x, -z, y, w);
                     C.mix_rows(j, j2, w, z, -y, x);
@@ -227,7 +227,7 @@ SmithFact<TC> smith_factorization(const ColumnMatrix<TC> &A) {
             // now we loop over rows
             continue_reduction = false;
             auto rp = S[j].nzend() - 1;
-            p = S[j].nzbegin();
+            auto p = S[j].nzbegin();
             while (rp != p) {
                 auto [x, y, g, w, z] = extended_euclidean(p->val, rp->val);
                 if (!continue_reduction && p->val == g) {
@@ -322,9 +322,9 @@ std::tuple<ColumnMatrix<TC>, ColumnMatrix<TC>> smith_rows(const ColumnMatrix<TC>
         bool continue_reduction = true;
         while (continue_reduction) {
             // first, we loop over columns to the right
-            auto p = S[j].nzbegin();
             for (size_t j2 = j+1; j2 < S.ncol(); j2++) {
                 if (S[j2].nnz() > 0 && S[j2].firstnz().ind == j) {
+                    auto p = S[j].nzbegin(); // mix_cols invalidates iterators
                     auto [x, y, g, w, z] = extended_euclidean(p->val, S[j2].firstnz().val);
                     S.mix_cols(j, j2, x, -z, y, w);
                 }
@@ -333,7 +333,7 @@ std::tuple<ColumnMatrix<TC>, ColumnMatrix<TC>> smith_rows(const ColumnMatrix<TC>
             // now we loop over rows
             continue_reduction = false;
             auto rp = S[j].nzend() - 1;
-            p = S[j].nzbegin();
+            auto p = S[j].nzbegin();
             while (rp != p) {
                 auto [x, y, g, w, z] = extended_euclidean(p->val, rp->val);
                 if (!continue_reduction && p->val == g) {
-- 
2.43.0


From 3bf26f1c2944e625f0b0f00e82b385ebb97afe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:28 +0000
Subject: [PATCH 43/62] fix: smith factorization lost rows and did not
 terminate when the pivot divides an entry

---
 include/linalg/pid.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/linalg/pid.hpp b/include/linalg/pid.hpp
index 06176de..0ba1fb4 100755
--- a/include/linalg/pid.hpp
+++ b/include/linalg/pid.hpp
@@ -17,13 +17,12 @@ returns x, y, gcd(a,b), a/gcd(a,b), b/gcd(a,b)
 */
 template <typename PID>
 std::tuple<PID, PID, PID, PID, PID> extended_euclidean(const PID& a, const PID& b) {
-    // TODO: check if a or b is 0.
-    // if (a == 0) {
-    //
-    //     return std::tie(old_s, old_t, old_r, t, s); // x, y, gcd, a/gcd, b/gcd
-    // } else if (b == 0) {
-    //
-    // }
+    // if a divides b the gcd is a itself: keep a as it is, so that a row or
+    // column operation with these coefficients leaves the first one alone
+    if (a != 0) {
+        PID q = b / a;
+        if (q * a == b) { return std::tuple(PID(1), PID(0), a, PID(1), q); }
+    }
 
     PID s(0), old_s(1);
     PID t(1), old_t(0);
-- 
2.43.0


From 0827092c7240c3510bb66ee7ec2fd6f0912fb47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:28 +0000
Subject: [PATCH 44/62] fix: SparseVector::scale_inplace by zero stored zero
 entries

---
 include/linalg/sparse_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 200f367..acb3ac1 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -1146,6 +1146,7 @@ public:
 
 	// scale vector by c
 	void scale_inplace(const TV c) {
+		if (c == TV(0)) { indval.clear(); return; } // zeros are not stored
 		auto it = nzbegin();
 		while (it != nzend()) {
 			it->val = it->val * c;
-- 
2.43.0


From 78a780c6d7c5a0fed3c34380f829dd1d94285d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:00 +0000
Subject: [PATCH 45/62] fix: A - B computed B - A

---
 include/linalg/col_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index dc6800b..e0b2d44 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -759,9 +759,9 @@ public:
     }
 
     ColumnMatrix operator-(const ColumnMatrix &B) const {
-        ColumnMatrix C(B); // copy constructor
+        ColumnMatrix C(*this); // copy constructor
         for (size_t j = 0; j < n; j++) {
-            C.col[j].axpy(-1, col[j]);
+            C.col[j].axpy(-1, B.col[j]);
         }
         return C;
     }
-- 
2.43.0


From 77d187834f635a2d38b2c061e26ff7120ad64018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:00 +0000
Subject: [PATCH 46/62] fix: SparseVector::random stored entries that are zero
 in the field

---
 include/linalg/sparse_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index acb3ac1..2bb03ca 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -1208,7 +1208,8 @@ public:
 		std::vector<key_type> indval;
 		for (size_t i = 0; i < n; i++) {
 			if (nz_distribution(generator) < p) {
-				indval.emplace_back(key_type(i, val_distribution(generator)));
+				TV v(val_distribution(generator));
+				if (v != TV(0)) { indval.emplace_back(key_type(i, v)); }
 			}
 		}
 		return SparseVector(indval);
-- 
2.43.0


From 3012d9fe87f8fc7f143e7048580335f112218cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:31 +0000
Subject: [PATCH 47/62] fix: is_upper_invert accepted matrices with zero
 columns

---
 include/linalg/col_matrix.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index e0b2d44..bf538f0 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -925,6 +925,8 @@ public:
 				if (iv->ind != j) {
 					return false;
 				}
+			} else {
+				return false; // zero column
 			}
 		}
 		return true;
-- 
2.43.0


From 517e5e8cf6700c27dd8d148d65cfabe7f4acabee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:31 +0000
Subject: [PATCH 48/62] fix: l_solve read past the end of a column without
 diagonal

---
 include/linalg/col_matrix.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index bf538f0..96557aa 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -1186,6 +1186,7 @@ TC l_solve(const ColumnMatrix<TC> &L, const TC &y) {
         j = (*xit).ind;
         // x[j] = x[j] / L[j,j]
         auto Lj_it = L[j].lower_bound(j); // assume entry j exists and is invertible
+        if (Lj_it == L[j].nzend()) {throw std::logic_error("diagonal doesn't exist");}
         auto a = (*xit).val / (*Lj_it).val;
         x.replace(xit, a);
         //*xit = nzpair((*xit).ind, a);
-- 
2.43.0


From 08465795d5f788d971e44d243baa7f94207c832f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:31 +0000
Subject: [PATCH 49/62] fix: block Schur complements did not compile and placed
 off-diagonal blocks at the wrong rows

---
 include/linalg/schur.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/linalg/schur.hpp b/include/linalg/schur.hpp
index e551c9c..289d02c 100755
--- a/include/linalg/schur.hpp
+++ b/include/linalg/schur.hpp
@@ -42,7 +42,7 @@ ColumnMatrix<CT> schur(
     // C.print_size();
     // D.print_size();
     // std::cout << "solve" << std::endl;
-    MT S = solve_U(A, B); // S <- A \ B
+    MT S = u_solve(A, B); // S <- A \ B
     MT R = C * S;         // R <- C * S = C * A \ B
     return D - R;         // D - R = D - C * A \ B
 }
@@ -110,26 +110,26 @@ auto schur(
     // now construct the matrices for return
     auto L1 = ColumnMatrix<TV>::identity(m);
     // set 32 block to L32
-    L1.set_block(i1, m, j0, j1, L32);
+    L1.set_block(i1, m, i0, i1, L32);
 
     auto U1 = ColumnMatrix<TV>::identity(m);
     // set 12 block to U12
-    U1.set_block(0, i0, j0, j1, U12);
+    U1.set_block(0, i0, i0, i1, U12);
 
     auto L2 = ColumnMatrix<TV>::identity(n);
     // set 21 block to L21
-    L2.set_block(i0, i1, 0, j0, L21);
+    L2.set_block(j0, j1, 0, j0, L21);
 
     auto U2 = ColumnMatrix<TV>::identity(n);
     // set 23 block to U23
-    U2.set_block(i0, i1, j1, n, U23);
+    U2.set_block(j0, j1, j1, n, U23);
 
     ColumnMatrix<TV> AS(m,n);
     AS.set_block(0, i0, 0, j0, S11);
     AS.set_block(0, i0, j1, n, S13);
     AS.set_block(i0, i1, j0,j1, A22);
     AS.set_block(i1, m, 0, j0, S31);
-    AS.set_blcok(i1, m, j1, n, S33);
+    AS.set_block(i1, m, j1, n, S33);
 
     return std::tuple(L1, U1, AS, L2, U2);
 }
-- 
2.43.0


From 9d43c4e4c213d6ce8b5229b75a0b87fbb0f15a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:47 +0000
Subject: [PATCH 50/62] fix: sparse vectors built from values stored entries
 that are zero in the field (a cell attached twice broke homology mod 2)

---
 include/linalg/sparse_vector.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 2bb03ca..88218a4 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -69,6 +69,11 @@ private:
 		}
 	}
 
+	// append an entry unless its value is zero in TV, e.g. 2 in a field of two elements
+	inline void emplace_nonzero(const TI i, const TV& v) {
+		if (v != TV(0)) { indval.emplace_back(key_type(i, v)); }
+	}
+
 public:
 	using val_type = TV;
 	using tmp_type = std::vector<key_type>;
@@ -98,7 +103,7 @@ public:
 		size_t nz = ind.size();
 		indval.reserve(nz);
 		for (size_t i = 0; i < nz; i++) {
-			indval.emplace_back(key_type(ind[i], val[i]));
+			emplace_nonzero(ind[i], val[i]);
 		}
 		#ifdef BATS_DEBUG
 		check_sorted();
@@ -110,7 +115,7 @@ public:
 	SparseVector(const SparseVector<int, TI2> &other) {
 		indval.reserve(other.nnz());
 		for (auto it = other.nzbegin(); it < other.nzend(); ++it) {
-			indval.emplace_back(key_type((*it).ind, (*it).val));
+			emplace_nonzero((*it).ind, TV((*it).val));
 		}
 		#ifdef BATS_DEBUG
 		check_sorted();
@@ -121,10 +126,7 @@ public:
 	SparseVector(const std::vector<std::tuple<size_t, int>>& ival) {
 		indval.reserve(ival.size());
 		for (auto& tup : ival) {
-			indval.emplace_back(key_type(
-				std::get<0>(tup),
-				std::get<1>(tup)
-			));
+			emplace_nonzero(std::get<0>(tup), TV(std::get<1>(tup)));
 		}
 		sort();
 	}
@@ -135,7 +137,7 @@ public:
 	SparseVector(IT1 indit, IT2 valit, size_t n) {
 		indval.reserve(n);
 		for (size_t i = 0; i < n; i++) {
-			indval.emplace_back(key_type(TI(*indit++), TV(*valit++)));
+			emplace_nonzero(TI(*indit++), TV(*valit++));
 		}
 		#ifdef BATS_DEBUG
 		check_sorted();
@@ -145,7 +147,7 @@ public:
 
 	// constructor that returns indicator in given index
 	SparseVector(const TI i, const TV v=TV(1)) {
-		indval.emplace_back(key_type(i, v));
+		emplace_nonzero(i, v);
 	}
 
 	/**
@@ -153,6 +155,7 @@ public:
 	*/
 	static SparseVector dense(const TV a, const TI m) {
 		std::vector<key_type> vindval;
+		if (a == TV(0)) { return SparseVector(vindval); }
 		vindval.reserve(m);
 		for (size_t i = 0; i < m; ++i) {
 			vindval.emplace_back(key_type(i,a));
@@ -171,7 +174,7 @@ public:
 		std::vector<TV> vals(val);
 		TI m = inds.size();
 		for (size_t i = 0; i < m; ++i) {
-			indval.emplace_back(key_type(inds[i], vals[i]));
+			emplace_nonzero(inds[i], vals[i]);
 		}
 	}
 
-- 
2.43.0


From 967128ca6ed3518518a3ac542f8d2fccad8b0f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:59 +0000
Subject: [PATCH 51/62] fix: RCF_basis took one Krylov vector too many per
 block; companion matrix of a constant

---
 include/linalg/polynomial.hpp | 1 +
 include/linalg/rcf.hpp        | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/linalg/polynomial.hpp b/include/linalg/polynomial.hpp
index 892e56e..89686b7 100755
--- a/include/linalg/polynomial.hpp
+++ b/include/linalg/polynomial.hpp
@@ -275,6 +275,7 @@ public:
 		if (!is_monic()) {throw std::runtime_error("Companion matrix requires monic polynomial!");}
 		size_t n = dim(); // size of companion matrix
 		std::vector<SparseVector<T>> cols(n);
+		if (n == 0) { return ColumnMatrix<SparseVector<T>>(0,0); } // constant polynomial 1
 		for (size_t j = 0; j < n-1; j++) {
 			cols[j] = SparseVector<T>({j+1}, {T(1)});
 		}
diff --git a/include/linalg/rcf.hpp b/include/linalg/rcf.hpp
index 2c864c0..4aa2c4e 100755
--- a/include/linalg/rcf.hpp
+++ b/include/linalg/rcf.hpp
@@ -52,7 +52,8 @@ ColumnMatrix<SparseVector<T>> RCF_basis(
         if (S(j,j).degree() > 0) {
             auto v = B[j];
             col.emplace_back(v);
-            for (size_t k = 0; k < S(j,j).degree(); k++) {
+            // v, Av, ..., A^(d-1)v
+            for (size_t k = 1; k < S(j,j).degree(); k++) {
                 v = A * v;
                 col.emplace_back(v);
             }
-- 
2.43.0


From decceb312ccd81e9ebce65ad4768e69e0f5c2bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:46 +0000
Subject: [PATCH 52/62] fix: Smith factorizations read the row index of an
 entry they had just erased

---
 include/linalg/pid.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/linalg/pid.hpp b/include/linalg/pid.hpp
index 0ba1fb4..1f1deda 100755
--- a/include/linalg/pid.hpp
+++ b/include/linalg/pid.hpp
@@ -229,14 +229,16 @@ SmithFact<TC> smith_factorization(const ColumnMatrix<TC> &A) {
             auto p = S[j].nzbegin();
             while (rp != p) {
                 auto [x, y, g, w, z] = extended_euclidean(p->val, rp->val);
+                // mixing the rows of S erases the entry rp points to
+                const auto i = p->ind, i2 = rp->ind;
                 if (!continue_reduction && p->val == g) {
-                    S[j].mix_rows(p->ind, rp->ind, x, y, -z, w);
-                    R.mix_cols(p->ind, rp->ind, w, -y, z, x);
+                    S[j].mix_rows(i, i2, x, y, -z, w);
+                    R.mix_cols(i, i2, w, -y, z, x);
                 } else {
                     // we're going to mix a row with the pivot row.
                     continue_reduction = true;
-                    S.mix_rows(p->ind, rp->ind, x, y, -z, w);
-                    R.mix_cols(p->ind, rp->ind, w, -y, z, x);
+                    S.mix_rows(i, i2, x, y, -z, w);
+                    R.mix_cols(i, i2, w, -y, z, x);
                 }
                 rp = S[j].nzend() - 1;
             }
@@ -335,14 +337,16 @@ std::tuple<ColumnMatrix<TC>, ColumnMatrix<TC>> smith_rows(const ColumnMatrix<TC>
             auto p = S[j].nzbegin();
             while (rp != p) {
                 auto [x, y, g, w, z] = extended_euclidean(p->val, rp->val);
+                // mixing the rows of S erases the entry rp points to
+                const auto i = p->ind, i2 = rp->ind;
                 if (!continue_reduction && p->val == g) {
-                    S[j].mix_rows(p->ind, rp->ind, x, y, -z, w);
-                    R.mix_cols(p->ind, rp->ind, w, -y, z, x);
+                    S[j].mix_rows(i, i2, x, y, -z, w);
+                    R.mix_cols(i, i2, w, -y, z, x);
                 } else {
                     // we're going to mix a row with the pivot row.
                     continue_reduction = true;
-                    S.mix_rows(p->ind, rp->ind, x, y, -z, w);
-                    R.mix_cols(p->ind, rp->ind, w, -y, z, x);
+                    S.mix_rows(i, i2, x, y, -z, w);
+                    R.mix_cols(i, i2, w, -y, z, x);
                 }
                 rp = S[j].nzend() - 1;
             }
-- 
2.43.0


From cdcc0388735c5fbbeb2789bc3080165828525d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:03 +0000
Subject: [PATCH 53/62] fix: Update_info::filtered_info, called again after the
 constructor, converted every index twice (wrong updates, out of range writes)

---
 include/filtration/update_information.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/filtration/update_information.hpp b/include/filtration/update_information.hpp
index 5a0de99..926269b 100755
--- a/include/filtration/update_information.hpp
+++ b/include/filtration/update_information.hpp
@@ -274,6 +274,19 @@ struct Update_info{
 	This function is only called in tests
 	*/
     void filtered_info(const std::vector<std::vector<size_t>>&perms_X, const int& degree = -1){
+        if (filtered_boolean) {
+            // indices are in filtration order already (see constructor),
+            // so put them back to the order of the complexes first
+            for (size_t i = 0; i < deletion_indices.size(); i++) {
+                for (auto& ind: deletion_indices[i]) { ind = F_X_perms[i][ind]; }
+                for (auto& ind: intersection_indices_X[i]) { ind = F_X_perms[i][ind]; }
+                for (auto& ind: addition_indices[i]) { ind = F_Y_perms[i][ind]; }
+                for (auto& ind: intersection_indices_Y[i]) { ind = F_Y_perms[i][ind]; }
+                for (auto& ind_list: boundary_indices[i]) {
+                    for (auto& ind: ind_list) { ind = F_Y_perms[i-1][ind]; }
+                }
+            }
+        }
         // step 1: determine permutation order for new filtration values
         F_X_perms = perms_X;
         if (degree == +1){
@@ -291,7 +304,7 @@ struct Update_info{
         for(auto&p: F_Y_perms){
             if(p != identity_perm(p.size())) filtration_sort = false;
         }
-        if(filtration_sort){
+        if(filtration_sort && !filtered_boolean){
             std::cout << "\nfiltration is sorted when construction " << std::endl;
             return;
         }
-- 
2.43.0


From a68daf2dc5421f1192676e79763dff861f6df4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:03 +0000
Subject: [PATCH 54/62] fix: Update_info::print_detail read filtrations that
 were never stored

---
 include/filtration/update_information.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/filtration/update_information.hpp b/include/filtration/update_information.hpp
index 926269b..5938f5e 100755
--- a/include/filtration/update_information.hpp
+++ b/include/filtration/update_information.hpp
@@ -403,8 +403,8 @@ struct Update_info{
 
     Update_info(const FiltrationType& F_X, const FiltrationType& F_Y, int degree = -1){
 
-        // F_old = F_X;
-        // F_new = F_Y;
+        F_old = F_X;
+        F_new = F_Y;
 
         max_dim = F_Y.maxdim();
         F_X_vals = F_X.vals();
-- 
2.43.0


From bd2f95a407bff3cb921b1b8da2cd877942b86371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:06 +0000
Subject: [PATCH 55/62] fix: ReducedDGVectorSpace of degree +1 read bases and
 representatives one dimension off and reduced representatives by the wrong
 differential

---
 include/homology/dgbasis.hpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/homology/dgbasis.hpp b/include/homology/dgbasis.hpp
index e3251c4..5362b6a 100644
--- a/include/homology/dgbasis.hpp
+++ b/include/homology/dgbasis.hpp
@@ -38,6 +38,8 @@ public:
 		return (degree == -1) ? I[k].size() : I[k+1].size();
 	}
 	inline size_t betti(size_t k) const { return hdim(k); }
+	// position of the differential out of dimension 0 in R, U and I
+	inline size_t basis_offset() const { return (degree == -1) ? 0 : 1; }
 	inline size_t maxdim() const { return R.size() - 2; }
 	inline size_t dim(size_t k) const {
 		return (degree == -1) ? R[k].ncol() : R[k+1].ncol();
@@ -74,7 +76,7 @@ public:
 			for (size_t k = 0; k < maxdim()+1; k++) {
 				I[k] = extract_basis_indices(R[k], p2c[k+1]);
 			}
-			I[maxdim()+1] = extract_basis_indices(R[maxdim()]);
+			I[maxdim()+1] = extract_basis_indices(R[maxdim()+1]);
 		} else if (degree == +1) {
 			// cohomological type
 			for (size_t k = 1; k < maxdim()+2; k++) {
@@ -278,7 +280,7 @@ public:
 	*/
 	template <typename TV>
 	inline TV to_hom_basis(const TV &v, size_t k) const {
-		return u_solve(U[k], v);
+		return u_solve(U[k + basis_offset()], v);
 	}
 
 	/**
@@ -286,7 +288,7 @@ public:
 	*/
 	template <typename TV>
 	inline TV from_hom_basis(const TV &v, size_t k) const {
-		return U[k] * v;
+		return U[k + basis_offset()] * v;
 	}
 
 
@@ -296,7 +298,7 @@ public:
 		const size_t j,
 		const size_t k
 	) const {
-		return U[k][I[k][j]];
+		return U[k + basis_offset()][I[k + basis_offset()][j]];
 	}
 
 	// modify y in-place to be preferred representative for homology class in dimension k
@@ -305,28 +307,29 @@ public:
 		vect_type &y,
 		size_t k
 	) const {
-		int dg_offset = (degree == -1) ? 0 : 1;
-		k += dg_offset;
-		if (k == R.size()-1) {
+		k += basis_offset();
+		if (degree == -1 && k == R.size()-1) {
 			// all cycles generate homology, so nothing to do
 			return;
 		}
+		// index of the differential into dimension k
+		const size_t kb = (degree == -1) ? k+1 : k-1;
 
 		// else we need to find the preferred representative
 		// const ColumnMatrix<TVec> &bdry,
 		// const p2c_type &p2c
-		size_t j = R[k+1].nrow();
+		size_t j = R[kb].nrow();
 		auto yit = y.upper_bound(j); // find iterator past last nonzero
 		while (yit != y.nzbegin()) {
 			--yit;
 			j = yit->ind;
 			// find if j is a pivot of bdry
 			// if (p2c[k+1].count(j) > 0) {
-			if (p2c[k+1][j] != bats::NO_IND) {
-				auto i = p2c[k+1].at(j);
+			if (p2c[kb][j] != bats::NO_IND) {
+				auto i = p2c[kb].at(j);
 
 				// form column i of boundary in homology revealing basis
-				auto bdri = u_solve(U[k], R[k+1][i]);
+				auto bdri = u_solve(U[k], R[kb][i]);
 				auto ipiv = bdri.lastnz();
 				auto a = (yit->val) / ipiv.val;
 				y.axpy(-a, bdri);
-- 
2.43.0


From 1cd0a34fcd73cbcd8955b023e05f33f8333e8071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:06 +0000
Subject: [PATCH 56/62] fix: ReducedCochainComplex took cohomology from the
 wrong coboundaries (wrong dimensions, out of range reads)

---
 include/homology/cohom_basis.hpp | 39 ++++++++++++++++----------------
 include/homology/induced_map.hpp |  2 +-
 2 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/include/homology/cohom_basis.hpp b/include/homology/cohom_basis.hpp
index fb5ec28..b2f5a5d 100755
--- a/include/homology/cohom_basis.hpp
+++ b/include/homology/cohom_basis.hpp
@@ -37,11 +37,17 @@ public:
 private:
 	// set cohomology indices after reduction is completed
 	void set_indices() {
+		// R[k] : C^{k-1} -> C^k, so k-cocycles are zero columns of R[k+1]
+		// and k-coboundaries are killed by pivots of R[k]
 		// TODO: can parallelize this
 		for (size_t k = 0; k < maxdim(); k++) {
-			I[k] = extract_basis_indices(R[k], p2c[k+1]);
+			I[k] = extract_basis_indices(R[k+1], p2c[k]);
+		}
+		// all top-dimensional cochains are cocycles
+		I[maxdim()].clear();
+		for (size_t j = 0; j < R[maxdim()].nrow(); j++) {
+			if (p2c[maxdim()][j] == bats::NO_IND) { I[maxdim()].emplace_back(j); }
 		}
-		I[maxdim()] = extract_basis_indices(R[maxdim()]);
 	}
 
 public:
@@ -195,12 +201,14 @@ public:
 	// put vector/matrix in homology-revealing basis in dimension k
 	template <typename TV>
 	inline TV to_hom_basis(const TV &v, size_t k) const {
-		return u_solve(U[k], v);
+		if (k == maxdim()) { return v; } // basis is not changed
+		return u_solve(U[k+1], v);
 	}
 
 	template <typename TV>
 	inline TV from_hom_basis(const TV &v, size_t k) const {
-		return U[k] * v;
+		if (k == maxdim()) { return v; } // basis is not changed
+		return U[k+1] * v;
 	}
 
 
@@ -210,12 +218,8 @@ public:
 		size_t i,
 		const size_t k
 	) const {
-		auto Iptr = I[k].begin();
-		while (i > 0) {
-			Iptr++;
-			i--;
-		}
-		return U[k][*Iptr];
+		if (k == maxdim()) { return cochain_type(I[k][i]); } // basis is not changed
+		return U[k+1][I[k][i]];
 	}
 
 	// modify y in-place to be preferred representative for homology class in dimension k
@@ -224,25 +228,20 @@ public:
 		typename MT::col_type &y,
 		const size_t k
 	) const {
-		if (k == maxdim()) {
-			// all cycles generate homology, so nothing to do
-			return;
-		}
-		// else we need to find the preferred representative
+		// we need to find the preferred representative
 		// const ColumnMatrix<TVec> &bdry,
 		// const p2c_type &p2c
-		size_t j = R[k+1].nrow();
+		size_t j = R[k].nrow();
 		auto yit = y.upper_bound(j); // find iterator past last nonzero
 		while (yit != y.nzbegin()) {
 			--yit;
 			j = yit->ind;
 			// find if j is a pivot of bdry
-			// if (p2c[k+1].count(j) > 0) {
-			if (p2c[k+1][j] != bats::NO_IND) {
-				auto i = p2c[k+1].at(j);
+			if (p2c[k][j] != bats::NO_IND) {
+				auto i = p2c[k].at(j);
 
 				// form column i of boundary in homology revealing basis
-				auto bdri = u_solve(U[k], R[k+1][i]);
+				auto bdri = to_hom_basis(R[k][i], k);
 				auto ipiv = bdri.lastnz();
 				auto a = (yit->val) / ipiv.val;
 				y.axpy(-a, bdri);
diff --git a/include/homology/induced_map.hpp b/include/homology/induced_map.hpp
index 9636447..c4d0d81 100755
--- a/include/homology/induced_map.hpp
+++ b/include/homology/induced_map.hpp
@@ -71,7 +71,7 @@ ColumnMatrix<TVec> induced_map(
 	// F*: D -> C
 	for (auto it = D.I[k].cbegin(); it != D.I[k].cend(); ++it) {
 		// put image in homology revealing basis in D
-		auto y = u_solve(C.U[k+1], D.U[k+1][*it] * F[k]); // F[k].T * D.U[k]
+		auto y = C.to_hom_basis(D.get_preferred_representative(it - D.I[k].cbegin(), k) * F[k], k); // F[k].T * D.U[k]
 		// find preferred representative for homology class
 		C.find_preferred_representative(y, k);
 		// extract indices
-- 
2.43.0


From bcfb5a00cd393084aa9812bd99538edbc15ecd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:06 +0000
Subject: [PATCH 57/62] fix: kron_homology reduced a chain that was not in the
 homology basis; tensor products read index shifts out of range

---
 include/chain/chain_complex.hpp       | 4 ++--
 include/topology/eilenberg_zilber.hpp | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index 3f45cea..7f588e4 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -323,8 +323,8 @@ template <typename Information_type>
 				for (size_t iA = 0; iA < A.dim(Adim); iA++) {
 					// loop over simplices of dimension dY
 					for (size_t iB = 0; iB < B.dim(Bdim); iB++) {
-						auto dxy = (A[Adim][iA].kron(VT(iB), B.dim(Bdim))).shift_inds(ind_shift[Adim-1][Bdim])\
-						 + VT(iA, T(Adim & 0x1 ? -1 : 1)).kron(B[Bdim][iB], B[Bdim].nrow()).shift_inds(ind_shift[Adim][Bdim-1]);
+						auto dxy = (A[Adim][iA].kron(VT(iB), B.dim(Bdim))).shift_inds(Adim > 0 ? ind_shift[Adim-1][Bdim] : 0)\
+						 + VT(iA, T(Adim & 0x1 ? -1 : 1)).kron(B[Bdim][iB], B[Bdim].nrow()).shift_inds(Bdim > 0 ? ind_shift[Adim][Bdim-1] : 0);
 						C[n].append_column(dxy);
 					}
 				}
diff --git a/include/topology/eilenberg_zilber.hpp b/include/topology/eilenberg_zilber.hpp
index edde59c..a6681e7 100755
--- a/include/topology/eilenberg_zilber.hpp
+++ b/include/topology/eilenberg_zilber.hpp
@@ -83,8 +83,8 @@ auto EilenbergZilber(
 					);
 					// create column in tensor product
 					// d(x \otimes y) = (dx \otimes y) + (-1)^deg(x) (x \otimes dy)
-					auto dxy = (CX[dX][iX].kron(VT(iY), Y.ncells(dY))).shift_inds(ind_shift[dX-1][dY])\
-					 + VT(iX, T(dX & 0x1 ? -1 : 1)).kron(CY[dY][iY], CY[dY].nrow()).shift_inds(ind_shift[dX][dY-1]);
+					auto dxy = (CX[dX][iX].kron(VT(iY), Y.ncells(dY))).shift_inds(dX > 0 ? ind_shift[dX-1][dY] : 0)\
+					 + VT(iX, T(dX & 0x1 ? -1 : 1)).kron(CY[dY][iY], CY[dY].nrow()).shift_inds(dY > 0 ? ind_shift[dX][dY-1] : 0);
 					CXCY[dim].append_column(dxy);
 
 					// create column in map
@@ -178,6 +178,7 @@ auto kron_homology(
 			// form kronecker product of chains
 			auto cxcy = cx.kron(cy, RY.dim(dy)).shift_inds(shift);
 			// find preferred representative in RXRY
+			cxcy = RXRY.to_hom_basis(cxcy, dim);
 			RXRY.find_preferred_representative(cxcy, dim);
 			col.emplace_back(cxcy[RXRY.I[dim]]);
 		}
-- 
2.43.0


From e5ecf79a91988deaa76c75f22765fcba258dac6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:16 +0000
Subject: [PATCH 58/62] fix: clear_compress_apparent_pairs compressed columns
 that can reduce to zero (wrong Betti numbers)

---
 include/chain/chain_complex.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index 7f588e4..b51addd 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -350,6 +350,8 @@ template <typename Information_type>
 			std::fill(clear_inds.begin(), clear_inds.end(), false);
 			comp_inds.resize(boundary[dim].ncol());
 			std::fill(comp_inds.begin(), comp_inds.end(), false);
+			// rows with a nonzero in some column that was already visited
+			std::vector<bool> seen(boundary[dim].nrow(), false);
 			// look at pivots to determine clearing/compression inds
 			for (size_t j = 0; j < boundary[dim].ncol(); ++j) {
 				auto it = boundary[dim][j].nzend();
@@ -357,14 +359,17 @@ template <typename Information_type>
 				if (it != boundary[dim][j].nzbegin()) {
 					--it; // point to last nonzero
 					size_t i = it->ind; // pivot index
-					if (!clear_inds[i]) {
-						// this is the first time we have seen this pivot
-						// mark j as a compression ind
+					// i is a pivot of the reduced matrix: mark as a clearing ind
+					clear_inds[i] = true;
+					if (!seen[i]) {
+						// j is the first column with a nonzero in row i, so
+						// reduction can not zero it: mark j as a compression ind
 						comp_inds[j] = true;
-						// mark i as a clearing ind
-						clear_inds[i] = true;
 					}
 				}
+				for (auto it2 = boundary[dim][j].nzbegin(); it2 != boundary[dim][j].nzend(); ++it2) {
+					seen[it2->ind] = true;
+				}
 			}
 			// we can now clear indices one dimension lower
 			if (dim > 1) {
-- 
2.43.0


From daa1e590813aba7155f568f4046ade338edf44fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:21 +0000
Subject: [PATCH 59/62] fix: cochain reduction with clearing cleared dimension
 0 by its own pivots

---
 include/homology/cohom_basis.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/homology/cohom_basis.hpp b/include/homology/cohom_basis.hpp
index b2f5a5d..38ceb72 100755
--- a/include/homology/cohom_basis.hpp
+++ b/include/homology/cohom_basis.hpp
@@ -132,7 +132,7 @@ public:
 		R[0] = C.coboundary[0];
 		p2c[0] = reduce_matrix(R[0], algflag());
 		std::vector<size_t> clear_inds = get_clearing_inds(p2c[0]);
-		for (ssize_t k = 0; k < dmax; k++) {
+		for (ssize_t k = 1; k < dmax; k++) {
 			R[k] = C.coboundary[k];
 			p2c[k] = reduce_matrix_clearing(R[k], clear_inds, algflag());
 			clear_inds = get_clearing_inds(p2c[k]);
-- 
2.43.0


From 9ee07d8aa4dc1014279ef5a0cb3ada326f7953b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:46 +0000
Subject: [PATCH 60/62] fix: kron_index never returned when the subcomplex's
 cells were inserted in another order

---
 include/topology/eilenberg_zilber.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/topology/eilenberg_zilber.hpp b/include/topology/eilenberg_zilber.hpp
index a6681e7..f96b5ec 100755
--- a/include/topology/eilenberg_zilber.hpp
+++ b/include/topology/eilenberg_zilber.hpp
@@ -198,6 +198,9 @@ std::vector<std::vector<size_t>> kron_index(
 ) {
 	std::vector<std::vector<size_t>> ABinds(maxdim+1);
 
+	// sorted_complement needs sorted indices
+	for (auto& ind : Ainds) { std::sort(ind.begin(), ind.end()); }
+
 	// loop over simplex dimension of product
 	for (size_t dim = 0; dim <=maxdim; dim++) {
 		if (dim == 0) {
-- 
2.43.0


From a0da4a9af495d53932ac65e81df525359895ebb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:29 +0000
Subject: [PATCH 61/62] fix: zigzag chain complexes kept the boundary of a
 first copy on faces that had already left

---
 include/zigzag/zigzag_filtration.hpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/zigzag/zigzag_filtration.hpp b/include/zigzag/zigzag_filtration.hpp
index cc7e62e..02fd614 100755
--- a/include/zigzag/zigzag_filtration.hpp
+++ b/include/zigzag/zigzag_filtration.hpp
@@ -195,16 +195,19 @@ struct ZigzagChainComplex
 	void _correct_indices(
 		size_t k,
 		size_t j,
-		const std::vector<std::vector<size_t>> extra_cells
+		const std::vector<std::vector<size_t>>& extra_cells
 	) {
 		auto it = C[k][j].nzbegin();
 		while (it != C[k][j].nzend()) {
 			auto i = it->ind;
-			// if this column enters after the original boundary exits, we need
-			// to search for copy of boundary
-			if (val[k][j].first > val[k-1][i].second) {
+			// if this column does not live within the interval of the original
+			// boundary, we need to search for copy of boundary
+			auto within = [&](const size_t f) {
+				return val[k-1][f].first <= val[k][j].first && val[k][j].second <= val[k-1][f].second;
+			};
+			if (!within(i)) {
 				for (size_t i2 = extra_cells[k-1][i]; i2 < extra_cells[k-1][i+1]; ++i2) {
-					if (val[k][j].first < val[k-1][i2].second) {
+					if (within(i2)) {
 						// we have found the correct copy
 						it->ind = i2; // set new index
 						break; // we're done with this index
@@ -257,14 +260,15 @@ struct ZigzagChainComplex
 					if(k < X.maxdim()) {C[k+1].append_row();}
 					// add to val[k]
 					val[k].emplace_back(*it++);
-					// modify indices of column to map to correct cells
-					if (k > 0) {
-						// correct the indices of the last column
-						_correct_indices(k, C[k].ncol()-1, extra_cells);
-					}
 				}
 			}
 			extra_cells[k][X.ncells(k)] = val[k].size(); // total number of cells
+			// modify indices of columns to map to correct cells, now that all copies exist
+			if (k > 0) {
+				for (size_t j = 0; j < C[k].ncol(); ++j) {
+					_correct_indices(k, j, extra_cells);
+				}
+			}
 		}
 	}
 
-- 
2.43.0


From 06d6299842a40ab13d7edfcca727dddd704bf23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:00 +0000
Subject: [PATCH 62/62] fix: zigzag barcodes used the cleared column of a
 removed cell above the computed dimensions

---
 include/zigzag/reduction.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/zigzag/reduction.hpp b/include/zigzag/reduction.hpp
index 89ba3e2..b9d4d87 100755
--- a/include/zigzag/reduction.hpp
+++ b/include/zigzag/reduction.hpp
@@ -543,8 +543,6 @@ auto zigzag_barcode_reduction(
 				// add bar to active_bars and transform initial indices of active_bars
 				detail::update_bars(bars[k-1], fval, k-1, fact.E, piv_to_ind[k-1], piv_to_ind2[k-1]);
 
-				// remove i from list of pivots
-				F.p2c[k][i] = bats::NO_IND;
 			} else if (k < maxdim + 1) {
 				// homology will be destroyed in this dimension since we remove zero column
 				// induced map of insertion <--
@@ -566,6 +564,10 @@ auto zigzag_barcode_reduction(
 
 				// this column should not have been recorded in p2c
 			}
+			// remove the pivot of the column from list of pivots, in every dimension
+			if (F.R[k][fval.ind].nnz() > 0) {
+				F.p2c[k][F.R[k][fval.ind].lastnz().ind] = bats::NO_IND;
+			}
 			F.R[fval.dim][fval.ind].clear_dealloc();
 			F.U[fval.dim][fval.ind].clear_dealloc();
 		}
-- 
2.43.0

