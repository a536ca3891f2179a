From 49f5a54a12cbe28a6de4d714d2685f4207fbffab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 01/46] fix: CompRowCsr construction zeroes row_ptr, counts
 rows after sorting, accepts no elements

---
 include/matrix/crcsr.h | 5 ++++-
 include/utils.h        | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/matrix/crcsr.h b/include/matrix/crcsr.h
index 6ef1753..429cdca 100644
--- a/include/matrix/crcsr.h
+++ b/include/matrix/crcsr.h
@@ -38,12 +38,14 @@ void Coo_to_CrCsr(CompRowCsr<T, IT> * A, NONZERO * nonzeros, IT nnz, IT nnzrows)
 
     A->nnz_rows_num = nnzrows;
     A->nnz_rows = new IT[nnzrows];
-    A->row_ptr = new IT[nnzrows + 1];
+    A->row_ptr = new IT[nnzrows + 1]();
     A->col_ind = new IT[nnz];
     A->val = new T[nnz];
 
     sort_triplets(nonzeros, nnz);
 
+    if (nnz == 0) return;
+
     A->nnz_rows[0] = nonzeros[0].row;
     cur_row_index = 0;
 
@@ -81,6 +83,7 @@ void Coo_to_CrCsr(CompRowCsr<T, IT> * A, NONZERO * nonzeros, IT nnz, IT nnzrows)
 template <class T, class IT, class NONZERO>
 void Coo_to_CrCsr (CompRowCsr<T, IT> * A, NONZERO * nonzeros, IT nnz)
 {
+    sort_triplets(nonzeros, nnz); // rows are counted on a sorted array
     IT nnzrows = count_nnz_rows(nonzeros, nnz);
     Coo_to_CrCsr(A, nonzeros, nnz, nnzrows);
 }
diff --git a/include/utils.h b/include/utils.h
index ea1ea56..ce00a97 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -351,12 +351,13 @@ IT count_blocks(Element<T, IT> * array, IT size)
 
 /*
  * Operates on a SORTED array of type NONZERO and returns the number of
- * non-zero rows. nnz has to be at greater or equal to 1. NNZERO type must have
- * a 'row' field
+ * non-zero rows. NNZERO type must have a 'row' field
  */
 template <class NONZERO, class IT>
 IT count_nnz_rows(NONZERO * source, IT nnz)
 {
+  if (nnz == 0) return 0;
+
   IT count=1;
   IT cur_row = source[0].row;
 
-- 
2.43.0


From 55d72da88eebb9588fc52ae315a631ec16e40561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 02/46] fix: sort_triplets_blocks does not read past the end of
 the array

---
 include/utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils.h b/include/utils.h
index ce00a97..a64b8a0 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -245,7 +245,7 @@ void sort_triplets_blocks(Triplet<T, IT> * array, IT size,
   brow_ptr[0] = 0;
   i = 0;
   for (IT br=0; br<blockrows; br++) {
-    while(array[i].row < brow_offset[br+1]) i++;
+    while(i<size && array[i].row < brow_offset[br+1]) i++;
     brow_ptr[br+1] = i;
   }
   brow_ptr[blockrows] = size;
-- 
2.43.0


From e7eac2613dd968dd58a55fff391fdf5817f4cadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 03/46] fix: an empty array has no blocks

---
 include/utils.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/utils.h b/include/utils.h
index a64b8a0..f0750fd 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -334,6 +334,8 @@ void calculate_block_id(Element<T, IT> * elements, IT size,
 template <class T, class IT>
 IT count_blocks(Element<T, IT> * array, IT size)
 {
+  if (size == 0) return 0;
+
   IT current = array[0].block;
   IT count = 1;
 
-- 
2.43.0


From 153c4ce8549e31e57263a8f02e67e197613780bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 04/46] fix: release(Csbr) matches how row pointers are
 allocated and releases the partition

---
 include/io/blocked.h  | 8 +++-----
 include/matrix/csbr.h | 3 ++-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 98f371f..0878d56 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -125,11 +125,7 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
       A->blocks[block_index].rows = br_size;
       A->blocks[block_index].val = A->val + i;
       A->blocks[block_index].col_ind = A->col_ind + i;
-      A->blocks[block_index].row_ptr = (IT *) calloc(br_size + 1, sizeof(IT));
-      if(A->blocks[block_index].row_ptr == NULL){
-        fprintf(stderr, "Could not allocate memory for block.\n");
-        return -5;
-      }
+      A->blocks[block_index].row_ptr = new IT[br_size + 1]();
     }
 
     assert(cur_row >= br_offset);
@@ -157,6 +153,8 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
   }
 
   assert(A->blockrow_ptr[blockrows] == A->nnzblocks);
+
+  partition_init(A);
   return 0;
 }
 
diff --git a/include/matrix/csbr.h b/include/matrix/csbr.h
index ffb094e..701ce7e 100644
--- a/include/matrix/csbr.h
+++ b/include/matrix/csbr.h
@@ -262,7 +262,7 @@ void Coo_to_Csbr(Csbr<T, IT> * A, Coo3<T, IT> * B,
       A->blocks[block_index].rows = br_size;
       A->blocks[block_index].val = A->val + i;
       A->blocks[block_index].col_ind = A->col_ind + i;
-      A->blocks[block_index].row_ptr = (IT *) calloc(br_size + 1, sizeof(IT));
+      A->blocks[block_index].row_ptr = new IT[br_size + 1]();
     }
 
     assert(B->elements[i].row >= br_offset);
@@ -378,6 +378,7 @@ void release(Csbr<T, IT>& A)
         free(A.blockrow_offset);
     }
 
+    partition_destroy(&A);
     free(A.blockcol_ind);
     free(A.blocks);
     free(A.blockrow_ptr);
-- 
2.43.0


From ef7a4f3cfb45862ad04c88cb427e8b3cf7f5090d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 05/46] fix: dense blocks release their values

---
 include/matrix/dense.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/matrix/dense.h b/include/matrix/dense.h
index 76c052b..4872f35 100644
--- a/include/matrix/dense.h
+++ b/include/matrix/dense.h
@@ -32,7 +32,12 @@ struct DenseSerial : public BlockBase<T,IT>
         }
     }
 
-    DenseSerial() {} // For testing. Should go.
+    DenseSerial() : val(nullptr) {} // For testing. Should go.
+
+    ~DenseSerial()
+    {
+        delete [] val;
+    }
 
     /*
      * Sparse matrix - vector multiplication. Result is stored in y. Memory for
@@ -140,9 +145,10 @@ void allocate(DENSE<T,IT> * A, IT rows, IT columns)
  */
 template <class T, class IT,
           template <typename, typename> class DENSE>
-void release(DENSE<T,IT> A)
+void release(DENSE<T,IT>& A)
 {
     delete [] A.val;
+    A.val = nullptr;
 }
 
 #endif
-- 
2.43.0


From f739611c233f710158b8e029f9d7a73645c23660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 06/46] fix: offsets of the constant block size constructor
 match release(Csbr2)

---
 include/generic/gsb.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/generic/gsb.h b/include/generic/gsb.h
index f6bf3b3..2108311 100644
--- a/include/generic/gsb.h
+++ b/include/generic/gsb.h
@@ -1,6 +1,7 @@
 #ifndef _GSB_H_
 #define _GSB_H_
 #include <cstdio>
+#include <cstdlib>
 
 #include "spmv/omp/gsb.h"
 
@@ -19,8 +20,9 @@ void Coo_to_Blocked(MATRIX * A, COO<T,IT> * B, IT br_size, IT bc_size)
     IT blockcols = B->columns / bc_size;
     if (blockrows == 0) blockrows = 1;
     if (blockcols == 0) blockcols = 1;
-    IT * blockrow_offset = new IT[blockrows + 1];
-    IT * blockcol_offset = new IT[blockcols + 1];
+    // release() of the formats that own their offsets uses free()
+    IT * blockrow_offset = (IT *) malloc((blockrows + 1) * sizeof(IT));
+    IT * blockcol_offset = (IT *) malloc((blockcols + 1) * sizeof(IT));
 
     // Calculate block-row offsets
     blockrow_offset[0] = 0;
-- 
2.43.0


From cf0d604e33824a0c9d997456eb3fd3bd345aef25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 07/46] fix: Cgbr and Cgbr2 release the offsets of the constant
 block size constructor

---
 include/generic/gsb.h   |  8 ++++++++
 include/matrix/cgbr.2.h | 12 ++++++++++++
 include/matrix/cgbr.h   | 12 ++++++++++++
 3 files changed, 32 insertions(+)

diff --git a/include/generic/gsb.h b/include/generic/gsb.h
index 2108311..aa792f2 100644
--- a/include/generic/gsb.h
+++ b/include/generic/gsb.h
@@ -7,6 +7,13 @@
 
 // ------------------------- Constructors -------------------------
 
+/*
+ * Tells a matrix that its offsets were allocated by the constructor below.
+ * Overloaded by formats that do not always own their offsets.
+ */
+template <class MATRIX>
+void set_own_offsets(MATRIX * A) {}
+
 /*
  * Additional constructor to create a GSB matrix with a constant block size.
  * Final blocks in each dimension will be a little larger when block size is
@@ -41,6 +48,7 @@ void Coo_to_Blocked(MATRIX * A, COO<T,IT> * B, IT br_size, IT bc_size)
     blockcol_offset[blockcols] = B->columns;
 
     Coo_to_Blocked(A, B, blockrow_offset, blockrows, blockcol_offset, blockcols);
+    set_own_offsets(A);
 }
 
 // ------------------------- Utilities -------------------------
diff --git a/include/matrix/cgbr.2.h b/include/matrix/cgbr.2.h
index 6dca397..103c8fa 100644
--- a/include/matrix/cgbr.2.h
+++ b/include/matrix/cgbr.2.h
@@ -28,6 +28,7 @@ struct Cgbr2 : public BlockBase<T,IT>
     bool balanced;
 
     // Block size information
+    bool own_offsets {false};
     IT * blockrow_offset;
     IT * blockcol_offset;
     IT blockrows;
@@ -224,6 +225,12 @@ void Coo_to_Blocked (Cgbr2<T,IT,SIT> * A, Coo3<T,IT> * B,
 
 /* ------------------- Utillities ------------------- */
 
+template <class T, class IT, class SIT>
+void set_own_offsets(Cgbr2<T,IT,SIT> * A)
+{
+    A->own_offsets = true;
+}
+
 /*
  * Release memory allocated for the CGBR matrix
  */
@@ -237,6 +244,11 @@ void release(Cgbr2<T,IT,SIT>& A)
         delete A.blocks[i];
     }
 
+    if (A.own_offsets) {
+        free(A.blockrow_offset);
+        free(A.blockcol_offset);
+    }
+
     delete [] A.blocks;
     delete [] A.blockrow_ptr;
     delete [] A.blockcol_ind;
diff --git a/include/matrix/cgbr.h b/include/matrix/cgbr.h
index 65f4e97..9602d8b 100644
--- a/include/matrix/cgbr.h
+++ b/include/matrix/cgbr.h
@@ -112,6 +112,7 @@ struct Cgbr
     bool balanced;
 
     // Block size information
+    bool own_offsets {false};
     IT * blockrow_offset;
     IT * blockcol_offset;
     IT blockrows;
@@ -390,6 +391,12 @@ void release (MatrixBlock<T,IT,SIT> *A)
     }
 }
 
+template <class T, class IT, class SIT>
+void set_own_offsets(Cgbr<T,IT,SIT> * A)
+{
+    A->own_offsets = true;
+}
+
 /*
  * Release memory allocated for the CGBR matrix
  */
@@ -404,6 +411,11 @@ void release(Cgbr<T,IT,SIT>& A)
         release(A.blocks + i);
     }
 
+    if (A.own_offsets) {
+        free(A.blockrow_offset);
+        free(A.blockcol_offset);
+    }
+
     delete [] A.blocks;
     delete [] A.blockrow_ptr;
     delete [] A.blockcol_ind;
-- 
2.43.0


From bc22669c32cec0e3d85b0d6488b7e705ded40106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 08/46] fix: Cgbr2::balanced is initialised

---
 include/matrix/cgbr.2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/matrix/cgbr.2.h b/include/matrix/cgbr.2.h
index 103c8fa..c4f8e97 100644
--- a/include/matrix/cgbr.2.h
+++ b/include/matrix/cgbr.2.h
@@ -25,7 +25,7 @@ struct Cgbr2 : public BlockBase<T,IT>
 
     // Partitioning information
     BlockRowPartition<IT> * partition;
-    bool balanced;
+    bool balanced {false}; // block-rows are always partitioned
 
     // Block size information
     bool own_offsets {false};
-- 
2.43.0


From eb7eee8b41a8b820838ea571d1387a640edc7239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 09/46] fix: dense blocks add up duplicate elements like every
 other format

---
 include/matrix/dense.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/matrix/dense.h b/include/matrix/dense.h
index 4872f35..819d59b 100644
--- a/include/matrix/dense.h
+++ b/include/matrix/dense.h
@@ -28,7 +28,7 @@ struct DenseSerial : public BlockBase<T,IT>
         for (IT i=0; i<nnz; i++)
         {
             pos = array[i].row * columns + array[i].col;
-            val[pos] = array[i].val;
+            val[pos] += array[i].val;
         }
     }
 
@@ -113,7 +113,7 @@ void Coo_to_Dense(DENSE<T,IT> * A, NONZERO * nonzeros, IT rows, IT columns, IT n
     for (IT i=0; i<nnz; i++)
     {
         pos = nonzeros[i].row * columns + nonzeros[i].col;
-        A->val[pos] = nonzeros[i].val;
+        A->val[pos] += nonzeros[i].val;
     }
 }
 
-- 
2.43.0


From ad6783b05c8a031c662834e9b17142224ad36058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 10/46] Hook: cut-offs of the parallel sort can be set by
 verification builds (GSB_VERIF_HOOKS)

---
 dep/pss/parallel_stable_sort.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dep/pss/parallel_stable_sort.h b/dep/pss/parallel_stable_sort.h
index c2fb7f3..0c13631 100644
--- a/dep/pss/parallel_stable_sort.h
+++ b/dep/pss/parallel_stable_sort.h
@@ -50,7 +50,11 @@ void parallel_move_merge( RandomAccessIterator1 xs_, RandomAccessIterator1 xe, R
 #else
 void parallel_move_merge( RandomAccessIterator1 xs, RandomAccessIterator1 xe, RandomAccessIterator2 ys, RandomAccessIterator2 ye, RandomAccessIterator3 zs, bool destroy, Compare comp ) {
 #endif
+#if defined(GSB_VERIF_HOOKS) && defined(GSB_VERIF_MERGE_CUT_OFF)
+    const size_t MERGE_CUT_OFF = GSB_VERIF_MERGE_CUT_OFF;
+#else
     const size_t MERGE_CUT_OFF = 2000;
+#endif
     while( (xe-xs) + (ye-ys) > MERGE_CUT_OFF ) {
         RandomAccessIterator1 xm;
         RandomAccessIterator2 ym;
@@ -80,7 +84,11 @@ void parallel_move_merge( RandomAccessIterator1 xs, RandomAccessIterator1 xe, Ra
 template<typename RandomAccessIterator1, typename RandomAccessIterator2, typename Compare>
 void parallel_stable_sort_aux( RandomAccessIterator1 xs, RandomAccessIterator1 xe, RandomAccessIterator2 zs, int inplace, Compare comp ) {
     typedef typename std::iterator_traits<RandomAccessIterator2>::value_type T;
+#if defined(GSB_VERIF_HOOKS) && defined(GSB_VERIF_SORT_CUT_OFF)
+    const size_t SORT_CUT_OFF = GSB_VERIF_SORT_CUT_OFF;
+#else
     const size_t SORT_CUT_OFF = 500;
+#endif
     if( xe-xs<=SORT_CUT_OFF ) {
         stable_sort_base_case(xs, xe, zs, inplace, comp); 
     } else {
-- 
2.43.0


From 1db155da2a6084695f51aea51d021987e4b1f660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 11/46] fix: pick_block_size returns a usable block size for
 small matrices

---
 include/utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utils.h b/include/utils.h
index f0750fd..196f7f0 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -30,7 +30,8 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     }
 
     if (!sizereq) {
-    	return 0;
+    	// Matrix is too small to tune, a block as large as its smaller dimension
+    	return 1 << std::min(rowbits, colbits);
     }
 
     IT rowlowbits = rowbits-1;	
-- 
2.43.0


From 366499cb3e4e180ebd46005ec6489e5b21cf3d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:17 +0000
Subject: [PATCH 12/46] fix: pick_block_size shifts in the index type (2^31
 rows, 64-bit indices)

---
 include/utils.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/utils.h b/include/utils.h
index 196f7f0..c84b372 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -23,15 +23,15 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     IT colbits = highest_bit_set(roundcolup);
     bool sizereq;
     if (ispar) {
-    	sizereq = ( (1 << rowbits) > SLACKNESS * workers) &&
-    		      ( (1 << colbits) > SLACKNESS * workers);
+    	sizereq = ( ((IT)1 << rowbits) > SLACKNESS * workers) &&
+    		      ( ((IT)1 << colbits) > SLACKNESS * workers);
     } else {
     	sizereq = ((rowbits > 1) && (colbits > 1));
     }
 
     if (!sizereq) {
     	// Matrix is too small to tune, a block as large as its smaller dimension
-    	return 1 << std::min(rowbits, colbits);
+    	return (IT)1 << std::min(rowbits, colbits);
     }
 
     IT rowlowbits = rowbits-1;	
@@ -49,7 +49,7 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     }
 
     // calculate the space that suby occupies in L2 cache
-    IT yL2 = (1 << rowlowbits) * val_size;
+    IT yL2 = ((IT)1 << rowlowbits) * val_size;
     while(yL2 > L2SIZE)
     {
     	yL2 /= 2;
@@ -58,7 +58,7 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     }
 
     // calculate the space that subx occupies in L2 cache
-    IT xL2 = (1 << collowbits) * val_size;
+    IT xL2 = ((IT)1 << collowbits) * val_size;
     while(xL2 > L2SIZE)
     {
     	xL2 /= 2;
-- 
2.43.0


From e67fc302aa535e29537003c3ab69d0e1b1c50a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 13/46] fix: COO blocks with 32-bit local indices

---
 include/matrix/block_coo.1.h | 2 +-
 include/matrix/block_coo.2.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/matrix/block_coo.1.h b/include/matrix/block_coo.1.h
index c41d9c0..032f6a5 100644
--- a/include/matrix/block_coo.1.h
+++ b/include/matrix/block_coo.1.h
@@ -48,7 +48,7 @@ int Coo_to_Coo(BlockCoo<T,IT,SIT> * A, NONZERO * array, IT nnz)
 
   if (sizeof(IT) > sizeof(SIT))
   {
-    IT max_index = 1 << (8 * sizeof(SIT));
+    IT max_index = (IT)1 << (8 * sizeof(SIT));
     for (IT i=0; i<nnz; i++)
     {
         assert(array[i].row < max_index && array[i].col < max_index);
diff --git a/include/matrix/block_coo.2.h b/include/matrix/block_coo.2.h
index b6eea53..ee8573f 100644
--- a/include/matrix/block_coo.2.h
+++ b/include/matrix/block_coo.2.h
@@ -36,7 +36,7 @@ int Coo_to_Coo(BlockCoo2<T,IT,SIT> * A, NONZERO * array, IT nnz)
   allocate(A, nnz);
 
   if (sizeof(IT) > sizeof(SIT)) {
-    IT max_index = 1 << (8 * sizeof(SIT));
+    IT max_index = (IT)1 << (8 * sizeof(SIT));
     for (IT i=0; i<nnz; i++) {
         assert(array[i].row < max_index && array[i].col < max_index);
     }
-- 
2.43.0


From 0adc0c9abfee96d0bd13473e0ab7317ddaea98b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:39 +0000
Subject: [PATCH 14/46] fix: three-file COO readers close every file, check
 their reads and set the dimensions

---
 include/io/input.h | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 57d400d..a02252d 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -135,13 +135,13 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
 template <class T, class IT>
 int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col, const char * file_val)
 {
-  T val;
-  IT size, r, c;
+  IT size;
   IT max_row = 0, max_col = 0;
+  size_t counter = 0;
   FILE *fr, *fc, *fv;
 
-  // Read row file to the end to get size
-  size = (IT) get_file_size(file_val) / sizeof(T);
+  // Read values file to the end to get size
+  size = (IT) (get_file_size(file_val) / sizeof(T));
 
   // Allocate memory
   allocate(A, size);
@@ -153,7 +153,7 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
     return -1;
   }
 
-  fread(A->I, sizeof(IT), size, fr);
+  counter += fread(A->I, sizeof(IT), size, fr);
   for (IT i=0; i<size; i++){
     if(A->I[i] > max_row) max_row = A->I[i];
   }
@@ -167,7 +167,7 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
     return -1;
   }
 
-  fread(A->J, sizeof(IT), size, fc);
+  counter += fread(A->J, sizeof(IT), size, fc);
   for (IT i=0; i<size; i++){
     if(A->J[i] > max_col) max_col = A->J[i];
   }
@@ -176,13 +176,18 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
 
   // Read value file
   fv = fopen(file_val, "rb");
-  if (fc == NULL) {
+  if (fv == NULL) {
     fprintf(stderr, "Cannot open values file.\n");
     return -1;
   }
 
-  fread(A->val, sizeof(T), size, fv);
-  fclose(fc);
+  counter += fread(A->val, sizeof(T), size, fv);
+  fclose(fv);
+
+  if (counter != 3 * (size_t) size) {
+    fprintf(stderr, "Failed to read matrix.\n");
+    return -4;
+  }
 
   // Set number or rows and columns
   A->rows = max_row + 1;
@@ -203,12 +208,13 @@ template <typename T, typename IT,
 int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, const char * file_val)
 {
   T vbuffer;
-  IT size, counter, buffer;
-  IT max_row, max_col;
+  IT size, buffer;
+  IT max_row = 0, max_col = 0;
+  size_t counter = 0;
   FILE *fr, *fc, *fv;
 
   // Read values file to the end to get size
-  size = (IT) get_file_size(file_val) / sizeof(T);
+  size = (IT) (get_file_size(file_val) / sizeof(T));
 
   // Allocate memory
   allocate(A, size);
@@ -224,6 +230,7 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
   {
     counter += fread(&buffer, sizeof(IT), 1, fr);
     A->set_row_index(i, buffer);
+    if (buffer > max_row) max_row = buffer;
   }
 
   fclose(fr);
@@ -240,6 +247,7 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
   {
     counter += fread(&buffer, sizeof(IT), 1, fc);
     A->set_column_index(i, buffer);
+    if (buffer > max_col) max_col = buffer;
   }
 
   fclose(fc);
@@ -258,7 +266,12 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
     A->set_value(i, vbuffer);
   }
 
-  fclose(fc);
+  fclose(fv);
+
+  if (counter != 3 * (size_t) size) {
+    fprintf(stderr, "Failed to read matrix.\n");
+    return -4;
+  }
 
   // Set number or rows and columns
   A->rows = max_row + 1;
-- 
2.43.0


From 113f4f34969e65ca57a08152ba182a710becbaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:46 +0000
Subject: [PATCH 15/46] fix: read_bin_COO rejects truncated files and elements
 out of bounds, closes the file

---
 include/io/input.h | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index a02252d..2504b2b 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -287,8 +287,10 @@ template <typename T, typename IT,
           template <typename, typename> class COO>
 int read_bin_COO(COO<T,IT> * A, const char * filename)
 {
-    IT counter, buffer;
+    IT buffer;
     T vbuffer;
+    size_t counter, size;
+    bool valid = true;
     FILE * f;
 
     f = fopen(filename, "rb");
@@ -304,9 +306,18 @@ int read_bin_COO(COO<T,IT> * A, const char * filename)
     counter += fread(&(A->nnz), sizeof(IT), 1, f);
     if (counter != 3) {
         fprintf(stderr, "Failed to read matrix header.\n");
+        fclose(f);
         return -2;
     }
 
+    // The rest of the file has to be large enough for all the elements
+    size = get_file_size(filename) - 3 * sizeof(IT);
+    if (A->nnz > size / (2 * sizeof(IT) + sizeof(T))) {
+        fprintf(stderr, "Failed to read matrix.\n");
+        fclose(f);
+        return -4;
+    }
+
     // Memory allocation
     allocate(A, A->nnz);
 
@@ -316,12 +327,14 @@ int read_bin_COO(COO<T,IT> * A, const char * filename)
     {
         counter += fread(&buffer, sizeof(IT), 1, f);
         A->set_row_index(i, buffer);
+        if (buffer >= A->rows) valid = false;
     }
 
     for (IT i=0; i<A->nnz; i++)
     {
         counter += fread(&buffer, sizeof(IT), 1, f);
         A->set_column_index(i, buffer);
+        if (buffer >= A->columns) valid = false;
     }
 
     for (IT i=0; i<A->nnz; i++)
@@ -330,13 +343,20 @@ int read_bin_COO(COO<T,IT> * A, const char * filename)
         A->set_value(i, vbuffer);
     }
 
-    if (counter != 3 * A->nnz)
+    fclose(f);
+
+    if (counter != 3 * (size_t) A->nnz)
     {
         fprintf(stderr, "Failed to read matrix.\n");
         return -4;
     }
 
-    fclose(f);
+    if (!valid)
+    {
+        fprintf(stderr, "Matrix has elements out of its bounds.\n");
+        return -5;
+    }
+
     return 0;
 }
 
-- 
2.43.0


From ae457e154d5e36e9fbbdf7564352bb69b504679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:55 +0000
Subject: [PATCH 16/46] fix: read_bin_CSR rejects truncated, unsorted and
 out-of-bounds files

---
 include/io/input.h | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 2504b2b..7616d7e 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -386,7 +386,9 @@ int read_COO(COO<T,IT> * A, const char * filename)
 template <class T, class IT>
 int read_bin_CSR(Csr<T, IT> * A, const char * filename)
 {
-  IT current_row, nnz;
+  IT current_row, previous_row = 0, nnz;
+  size_t counter = 0;
+  bool valid = true;
 
   // Open file for reading
   FILE * f = fopen(filename, "rb");
@@ -396,9 +398,14 @@ int read_bin_CSR(Csr<T, IT> * A, const char * filename)
   }
 
   // Read header
-  fread(&(A->rows), sizeof(IT), 1, f);
-  fread(&(A->columns), sizeof(IT), 1, f);
-  fread(&nnz, sizeof(IT), 1, f);
+  counter += fread(&(A->rows), sizeof(IT), 1, f);
+  counter += fread(&(A->columns), sizeof(IT), 1, f);
+  counter += fread(&nnz, sizeof(IT), 1, f);
+  if(counter != 3 || nnz > (get_file_size(filename) - 3 * sizeof(IT)) / (2 * sizeof(IT) + sizeof(T))){
+    fprintf(stderr, "Failed to read matrix header.\n");
+    fclose(f);
+    return -2;
+  }
 
   DEBUG(puts("Reading header done"));
 
@@ -412,12 +419,25 @@ int read_bin_CSR(Csr<T, IT> * A, const char * filename)
   // Read data section
   for(IT i=0; i<nnz; i++){
     fread(&current_row, sizeof(IT), 1, f);
+    if(current_row >= A->rows || current_row < previous_row){
+      valid = false;
+      break;
+    }
     A->row_ptr[current_row+1]++;  // Count non-zeros per row
+    previous_row = current_row;
   }
   fread(A->col_ind, sizeof(IT), nnz, f);
   fread(A->val, sizeof(T), nnz, f);
   fclose(f);
 
+  for(IT i=0; valid && i<nnz; i++){
+    if(A->col_ind[i] >= A->columns) valid = false;
+  }
+  if(!valid){
+    fprintf(stderr, "Matrix is not sorted or has elements out of its bounds.\n");
+    return -5;
+  }
+
   DEBUG(puts("Reading data done"));
 
   // Get row pointers from row non-zero counters
-- 
2.43.0


From ab3e73f5d5c31b387dcf1c7bb388036445129526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:28 +0000
Subject: [PATCH 17/46] fix: read_bin_CSR for Csr2 (did not compile; sizes of
 rows and values)

---
 include/io/input.h | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 7616d7e..0f1a77a 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -457,9 +457,11 @@ int read_bin_CSR(Csr<T, IT> * A, const char * filename)
 template <class T, class IT>
 int read_bin_CSR(Csr2<T, IT> * A, const char * filename)
 {
-  IT current_row, nnz;
+  IT current_row, previous_row = 0, nnz;
+  size_t counter = 0;
+  bool valid = true;
 
-  // Open file for writing
+  // Open file for reading
   FILE * f = fopen(filename, "rb");
   if(f == NULL){
     fprintf(stderr, "Cannot open input file.\n");
@@ -467,28 +469,46 @@ int read_bin_CSR(Csr2<T, IT> * A, const char * filename)
   }
 
   // Read header
-  fread(&(A->rows), sizeof(IT), 1, f);
-  fread(&(A->columns), sizeof(IT), 1, f);
-  fread(&nnz, sizeof(IT), 1, f);
+  counter += fread(&(A->rows), sizeof(IT), 1, f);
+  counter += fread(&(A->columns), sizeof(IT), 1, f);
+  counter += fread(&nnz, sizeof(IT), 1, f);
+  if(counter != 3 || nnz > (get_file_size(filename) - 3 * sizeof(IT)) / (2 * sizeof(IT) + sizeof(T))){
+    fprintf(stderr, "Failed to read matrix header.\n");
+    fclose(f);
+    return -2;
+  }
 
   // Allocate memory
-  A->nonzeros = new NonZero<T,IT>[nnz];
-  A->row_ptr = new IT[A->rows]();
+  A->data = new NonZero<T,IT>[nnz];
+  A->row_ptr = new IT[A->rows + 1]();
 
   // Read data section
   for(IT i=0; i<nnz; i++){
     fread(&current_row, sizeof(IT), 1, f);
+    if(current_row >= A->rows || current_row < previous_row){
+      valid = false;
+      break;
+    }
     A->row_ptr[current_row+1]++;  // Count non-zeros per row
+    previous_row = current_row;
   }
 
   for(IT i=0; i<nnz; i++)
-    fread(&(A->nonzeros[i].index), sizeof(IT), 1, f);
+    fread(&(A->data[i].index), sizeof(IT), 1, f);
 
   for(IT i=0; i<nnz; i++)
-    fread(&(A->nonzeros[i].val), sizeof(IT), 1, f);
+    fread(&(A->data[i].val), sizeof(T), 1, f);
 
   fclose(f);
 
+  for(IT i=0; valid && i<nnz; i++){
+    if(A->data[i].index >= A->columns) valid = false;
+  }
+  if(!valid){
+    fprintf(stderr, "Matrix is not sorted or has elements out of its bounds.\n");
+    return -5;
+  }
+
   // Get row pointers from row non-zero counters
   for(IT i=0; i<A->rows; i++){
     A->row_ptr[i+1] = A->row_ptr[i+1] + A->row_ptr[i];
-- 
2.43.0


From 716bec5a0fd8d15b7380ff790065600c3447e7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 18/46] fix: read_mm_COO handles pattern and skew-symmetric
 matrices, rejects malformed files, closes the file

---
 include/io/input.h | 47 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 0f1a77a..1e67e72 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -33,6 +33,21 @@ int read_bin_array(const char * filename, T ** data, size_t * num )
   return 0;
 }
 
+/*
+ * Read one element of a Matrix Market coordinate file. Elements of pattern
+ * matrices have no value in the file, their value is 1. Returns the number of
+ * items read (3 for a complete element) or EOF.
+ */
+static inline int read_mm_point(FILE * f, bool pattern, unsigned long * r, unsigned long * c, double * val)
+{
+  if (pattern) {
+    int ret = fscanf(f, "%lu %lu\n", r, c);
+    *val = 1;
+    return ret == 2 ? 3 : ret;
+  }
+  return fscanf(f, "%lu %lu %lg\n", r, c, val);
+}
+
 /*
  * Function to read a COO matrix from a Matrix Market file. Makes use of the
  * library mm_io.c provided here :
@@ -59,22 +74,30 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
   // Read header and perform type checks
   if (mm_read_banner(f, &matcode) != 0){
       fprintf(stderr, "Could not process Matrix Market banner.\n");
+      fclose(f);
       return -2;
   }
 
-  if (mm_is_complex(matcode) || !mm_is_coordinate(matcode) ){
+  if (mm_is_complex(matcode) || mm_is_hermitian(matcode) ||
+      !mm_is_coordinate(matcode) || !mm_is_valid(matcode)){
+      char * type = mm_typecode_to_str(matcode);
       fprintf(stderr, "Sorry, this program does not support ");
-      fprintf(stderr, "Market Market type: [%s]\n", mm_typecode_to_str(matcode));
+      fprintf(stderr, "Market Market type: [%s]\n", type);
+      free(type);
+      fclose(f);
       return -3;
   }
 
-  if (mm_is_symmetric(matcode)) symflag = 1;
+  if (mm_is_symmetric(matcode) || mm_is_skew(matcode)) symflag = 1;
+  bool pattern = mm_is_pattern(matcode);
+  double mirror = mm_is_skew(matcode) ? -1 : 1;
 
   // Read size and allocate memory. Following function only works with ints
   int nr, nc, nnz;
   int ret_code = mm_read_mtx_crd_size(f, &nr, &nc, &nnz);
-  if (ret_code != 0) {
+  if (ret_code != 0 || nr < 0 || nc < 0 || nnz < 0) {
     fprintf(stderr, "Error while reading size information.\n");
+    fclose(f);
     return -4;
   }
   A->rows = (IT) nr;
@@ -85,10 +108,14 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
     fflush(f);
     position = ftell(f);
     counter = 0;
-    for (IT i=0; i<2*nnz; i++){
-        ret = fscanf(f, "%lu %lu %lg\n", &r, &c, &val);
+    for (IT i=0; i<nnz; i++){
+        ret = read_mm_point(f, pattern, &r, &c, &val);
         if(ret == EOF){
           break;
+        }else if(ret != 3){
+          fprintf(stderr, "Error while reading the elements.\n");
+          fclose(f);
+          return -5;
         }else{
           if(r==c){
             counter += 1;
@@ -107,17 +134,21 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
 
   // Read everything as unsigned long and double. Convert to appropriate type later.
   for (IT i=0; i<nnz; i++){
-      ret = fscanf(f, "%lu %lu %lg\n", &r, &c, &val);
+      ret = read_mm_point(f, pattern, &r, &c, &val);
       if(ret == EOF){
         A->nnz = i;
         break;
+      }else if(ret != 3 || r < 1 || r > nr || c < 1 || c > nc){
+        fprintf(stderr, "Error while reading the elements.\n");
+        fclose(f);
+        return -5;
       }else{
         set_point(A, (IT) i, (IT) (r-1), (IT) (c-1), (T) val);
 
         // If matrix is symmetric, add symmetric point
         if(symflag && r!=c){
           i++;
-          set_point(A, (IT) i, (IT) (c-1), (IT) (r-1), (T) val);
+          set_point(A, (IT) i, (IT) (c-1), (IT) (r-1), (T) (mirror * val));
         }
       }
   }
-- 
2.43.0


From e17596e9e23b20dd1a9555309311236e83b99ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 19/46] fix: write_mm_COO writes enough digits to read the same
 values back

---
 include/io/output.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/io/output.h b/include/io/output.h
index b728494..7b4e3ad 100644
--- a/include/io/output.h
+++ b/include/io/output.h
@@ -1,6 +1,8 @@
 #ifndef _OUTPUT_H_
 #define _OUTPUT_H_
+#include <algorithm>
 #include <cstdio>
+#include <limits>
 
 #include "mm_io/mm_io.h"
 #include "common.h"
@@ -40,6 +42,10 @@ int write_mm_COO(COO<T,IT> * A, const char * filename)
   unsigned long r, c;
   unsigned long size = A->nnz;
 
+  // Enough digits to get the same value back
+  const int digits = std::max(std::numeric_limits<T>::max_digits10,
+                              std::numeric_limits<T>::digits10 + 1);
+
   // Open file for writing
   FILE * f = fopen(filename, "w");
   if (f == NULL) {
@@ -66,7 +72,8 @@ int write_mm_COO(COO<T,IT> * A, const char * filename)
     val = A->get_value(i);
 
     // MM uses 1-based indexing
-    fprintf(f, "%lu %lu %f\n", r+1, c+1, (double) val);
+    fprintf(f, "%lu %lu %.*g\n", r+1, c+1,
+            digits, (double) val);
   }
 
   // Close file
-- 
2.43.0


From 3e076b8a5668787af1148836e8d31169e8e0f810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 20/46] fix: BCSR marks its empty blocks, accumulates every
 block and has a product (did not compile)

---
 include/matrix/bcsr.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/matrix/bcsr.h b/include/matrix/bcsr.h
index fc60cbc..f7e13f4 100644
--- a/include/matrix/bcsr.h
+++ b/include/matrix/bcsr.h
@@ -67,7 +67,20 @@ struct Bcsr
      */
     void spmv(const T * __restrict x, T * __restrict y) const
     {
-        spmv_blocked<Bcsr<T,IT>,T,IT>(this, x, y);
+        // For each block row
+        #pragma omp parallel for schedule(dynamic,1)
+        for (IT bi=0; bi<blockrows; bi++)
+        {
+            T * const y_block = y + get_block_row_offset(bi);
+
+            // For every non-empty block in block row
+            for (IT bj=0; bj<blockcols; bj++)
+            {
+                Csr<T,IT> const& block = blocks[bi * blockcols + bj];
+                if (block.rows > 0)
+                    block.spmv_serial(x + get_block_column_offset(bj), y_block);
+            }
+        }
     }
 };
 
@@ -118,7 +131,7 @@ void Coo_to_Bcsr(Bcsr<T, IT> * A, Coo3<T, IT> * B,
 
   // Mark all blocks as having 0 rows to filter out empty ones
   for (IT i=0; i<blockrows * blockcols; i++) {
-    A->blocks[b].rows = 0;
+    A->blocks[i].rows = 0;
   }
 
   prev_b = std::numeric_limits<IT>::max();
@@ -139,6 +152,7 @@ void Coo_to_Bcsr(Bcsr<T, IT> * A, Coo3<T, IT> * B,
 
       // CSR block initialize
       A->blocks[b].rows = br_size;
+      A->blocks[b].columns = bc_size;
       A->blocks[b].val = A->val + i;
       A->blocks[b].col_ind = A->col_ind + i;
       A->blocks[b].row_ptr = (IT *) calloc(br_size + 1, sizeof(IT));
@@ -160,7 +174,7 @@ void Coo_to_Bcsr(Bcsr<T, IT> * A, Coo3<T, IT> * B,
   DEBUG(puts("Data copied"));
 
   // Get row pointers from row non-zero counters
-  for (IT bi=0; bi<A->nnzblocks; bi++)
+  for (IT bi=0; bi<blockrows * blockcols; bi++)
   {
     for (IT i=0; i<A->blocks[bi].rows; i++)
     {
-- 
2.43.0


From ec57e8601f2e4f90edd7f9bc7dcb5f795ef88335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:36 +0000
Subject: [PATCH 21/46] fix: readers of blocked files (CGBR lost the first
 element, BCSR never multiplied, 64-bit indices, damaged files)

---
 include/io/blocked.h | 260 +++++++++++++++++++++++--------------------
 1 file changed, 141 insertions(+), 119 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 0878d56..90bf192 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -2,7 +2,7 @@
 #define _IO_BLOCKED_H_
 #include <cassert>
 #include <cstdio>
-#include <climits>
+#include <vector>
 
 #include "common.h"
 #include "matrix/csr.1.h"
@@ -23,7 +23,7 @@
  *   blockrow_offset
  *   blockcol_offset
  */
-template <class BLOCKEDTYPE, class IT>
+template <class BLOCKEDTYPE, class T, class IT>
 FILE * read_bin_blocked_common(BLOCKEDTYPE * A, const char * filename, IT * blockrow_offset, IT blockrows, IT * blockcol_offset, IT blockcols)
 {
   size_t n;
@@ -32,7 +32,7 @@ FILE * read_bin_blocked_common(BLOCKEDTYPE * A, const char * filename, IT * bloc
   FILE * f = fopen(filename, "rb");
   if(f == NULL){
     fprintf(stderr, "Cannot open input file.\n");
-    exit(1);
+    return NULL;
   }
 
   // Read header
@@ -47,16 +47,44 @@ FILE * read_bin_blocked_common(BLOCKEDTYPE * A, const char * filename, IT * bloc
   A->blockcol_offset = blockcol_offset;
 
   // Sanity check
-  assert(n == 6);
-  assert(A->blockrows == blockrows);
-  assert(A->blockcols == blockcols);
-  assert(A->blockrow_offset[A->blockrows] == A->rows);
-  assert(A->blockcol_offset[A->blockcols] == A->columns);
+  if(n != 6 || A->blockrows != blockrows || A->blockcols != blockcols ||
+     A->blockrow_offset[blockrows] != A->rows || A->blockcol_offset[blockcols] != A->columns ||
+     A->nnz > (get_file_size(filename) - 6 * sizeof(IT)) / (3 * sizeof(IT) + sizeof(T)) ||
+     A->nnzblocks > A->nnz){
+    fprintf(stderr, "Error while reading header.\n");
+    fclose(f);
+    return NULL;
+  }
 
   DEBUG(printf("\nReading header done\n"));
   return f;
 }
 
+/*
+ * Read the next element of a blocked file. Elements are sorted by block, then
+ * by row, and lie inside their block. Returns false if this one does not.
+ */
+template <class T, class IT>
+bool read_bin_blocked_element(FILE * f, Element<T, IT> * e, Element<T, IT> const * previous,
+  IT * blockrow_offset, IT blockrows, IT * blockcol_offset, IT blockcols)
+{
+  size_t fr;
+
+  fr  = fread(&(e->block), sizeof(IT), 1, f);
+  fr += fread(&(e->row), sizeof(IT), 1, f);
+  fr += fread(&(e->col), sizeof(IT), 1, f);
+  fr += fread(&(e->val), sizeof(T), 1, f);
+  if(fr != 4 || e->block / blockcols >= blockrows) return false;
+
+  IT br = e->block / blockcols;
+  IT bc = e->block % blockcols;
+  if(e->row < blockrow_offset[br] || e->row >= blockrow_offset[br + 1] ||
+     e->col < blockcol_offset[bc] || e->col >= blockcol_offset[bc + 1]) return false;
+
+  return previous == NULL || previous->block < e->block ||
+         (previous->block == e->block && previous->row <= e->row);
+}
+
 /*
  * Read a blocked sparse matrix in CSBR format from a binary (.block) file.
  */
@@ -70,10 +98,13 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
   IT b, prev_b;
   IT cur_row, cur_col;
   T cur_val;
-  size_t fr;
+  Element<T, IT> cur, prev;
+  IT blocks_read = 0;
+  bool valid;
 
   // Open file, read header and validate
-  FILE * f = read_bin_blocked_common<Csbr<T, IT>, IT>(A, filename, blockrow_offset, blockrows, blockcol_offset, blockcols);
+  FILE * f = read_bin_blocked_common<Csbr<T, IT>, T, IT>(A, filename, blockrow_offset, blockrows, blockcol_offset, blockcols);
+  if(f == NULL) return -1;
 
   // Allocate memory
   A->blocks = (Csr<T,IT> *) malloc( A->nnzblocks * sizeof(Csr<T,IT>));
@@ -89,26 +120,26 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
 
   DEBUG(puts("Memory allocation done"));
 
-  block_index = UINT_MAX;  // Assuming UINT_MAX + 1 = 0
-  prev_b = UINT_MAX;
+  block_index = (IT) -1;  // First block makes it 0
+  prev_b = (IT) -1;
 
   // Read data section
   for(IT i=0; i<A->nnz; i++){
-    fr  = fread(&b, sizeof(IT), 1, f);
-    fr += fread(&cur_row, sizeof(IT), 1, f);
-    fr += fread(&cur_col, sizeof(IT), 1, f);
-    fr += fread(&cur_val, sizeof(T), 1, f);
-    if(fr != 4){
+    valid = read_bin_blocked_element(f, &cur, i > 0 ? &prev : NULL, blockrow_offset, blockrows, blockcol_offset, blockcols);
+    if(!valid || (cur.block != prev_b && ++blocks_read > A->nnzblocks)){
       fprintf(stderr, "Error while reading data section.\n");
+      fclose(f);
       return -4;
     }
+    prev = cur;
+    b = cur.block;
+    cur_row = cur.row;
+    cur_col = cur.col;
+    cur_val = cur.val;
 
     // Check if this is the begining of a new block
     if( b != prev_b){
 
-      // Make sure blocks are sorted correctly
-      assert(b > prev_b || prev_b == UINT_MAX);
-
       block_index++;
       prev_b = b;
       br = b / blockcols;
@@ -123,15 +154,12 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
 
       // CSR block initialize
       A->blocks[block_index].rows = br_size;
+      A->blocks[block_index].columns = blockcol_offset[bc + 1] - bc_offset;
       A->blocks[block_index].val = A->val + i;
       A->blocks[block_index].col_ind = A->col_ind + i;
       A->blocks[block_index].row_ptr = new IT[br_size + 1]();
     }
 
-    assert(cur_row >= br_offset);
-    assert(cur_row  < br_size + br_offset);
-    assert(cur_col >= bc_offset);
-
     A->blocks[block_index].row_ptr[cur_row - br_offset + 1]++;  // Count non-zeros per row
     A->col_ind[i] = cur_col - bc_offset;
     A->val[i] = cur_val;
@@ -139,6 +167,11 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
 
   fclose(f);
 
+  if(blocks_read != A->nnzblocks){
+    fprintf(stderr, "Error while reading data section.\n");
+    return -4;
+  }
+
   DEBUG(puts("Reading data section done"));
 
   // Get row pointers from row non-zero counters
@@ -171,10 +204,13 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
   IT b, prev_b;
   IT cur_row, cur_col;
   T cur_val;
-  size_t fr;
+  Element<T, IT> cur, prev;
+  IT blocks_read = 0;
+  bool valid;
 
   // Open file, read header and validate
-  FILE * f = read_bin_blocked_common<Csbr2<T, IT>, IT>(A, filename, blockrow_offset, blockrows, blockcol_offset, blockcols);
+  FILE * f = read_bin_blocked_common<Csbr2<T, IT>, T, IT>(A, filename, blockrow_offset, blockrows, blockcol_offset, blockcols);
+  if(f == NULL) return -1;
 
   // Allocate memory
   A->blockrow_ptr = (IT *) calloc( A->blockrows + 1 , sizeof(IT));
@@ -189,26 +225,26 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
 
   DEBUG(puts("Memory allocation done"));
 
-  block_index = UINT_MAX;  // Assuming UINT_MAX + 1 = 0
-  prev_b = UINT_MAX;
+  block_index = (IT) -1;  // First block makes it 0
+  prev_b = (IT) -1;
 
   // Read data section
   for(IT i=0; i<A->nnz; i++){
-    fr  = fread(&b, sizeof(IT), 1, f);
-    fr += fread(&cur_row, sizeof(IT), 1, f);
-    fr += fread(&cur_col, sizeof(IT), 1, f);
-    fr += fread(&cur_val, sizeof(T), 1, f);
-    if(fr != 4){
+    valid = read_bin_blocked_element(f, &cur, i > 0 ? &prev : NULL, blockrow_offset, blockrows, blockcol_offset, blockcols);
+    if(!valid || (cur.block != prev_b && ++blocks_read > A->nnzblocks)){
       fprintf(stderr, "Error while reading data section.\n");
+      fclose(f);
       return -4;
     }
+    prev = cur;
+    b = cur.block;
+    cur_row = cur.row;
+    cur_col = cur.col;
+    cur_val = cur.val;
 
     // Check if this is the begining of a new block
     if( b != prev_b){
 
-      // Make sure blocks are sorted correctly
-      assert(b > prev_b || prev_b == UINT_MAX);
-
       block_index++;
       prev_b = b;
       br = b / blockcols;
@@ -228,10 +264,6 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
       }
     }
 
-    assert(cur_row >= br_offset);
-    assert(cur_row  < br_size + br_offset);
-    assert(cur_col >= bc_offset);
-
     A->row_ptr[block_index][cur_row - br_offset + 1]++;  // Count non-zeros per row
     A->col_ind[i] = cur_col;
     A->val[i] = cur_val;
@@ -239,6 +271,11 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
 
   fclose(f);
 
+  if(blocks_read != A->nnzblocks){
+    fprintf(stderr, "Error while reading data section.\n");
+    return -4;
+  }
+
   DEBUG(puts("Reading data section done"));
 
   // Accumulate block-row counters to get block-row pointers
@@ -281,10 +318,13 @@ int read_bin_blocked(Bcsr<T, IT> * A, const char * filename,
   IT b, prev_b;
   IT cur_row, cur_col;
   T cur_val;
-  size_t fr;
+  Element<T, IT> cur, prev;
+  IT blocks_read = 0;
+  bool valid;
 
   // Open file, read header and validate
-  FILE * f = read_bin_blocked_common<Bcsr<T, IT>, IT>(A, filename, blockrow_offset, blockrows, blockcol_offset, blockcols);
+  FILE * f = read_bin_blocked_common<Bcsr<T, IT>, T, IT>(A, filename, blockrow_offset, blockrows, blockcol_offset, blockcols);
+  if(f == NULL) return -1;
 
   // Allocate memory
   A->blocks = (Csr<T, IT> *) malloc( A->blockrows * A->blockcols * sizeof(Csr<T, IT>));
@@ -303,22 +343,24 @@ int read_bin_blocked(Bcsr<T, IT> * A, const char * filename,
     A->blocks[i].rows = 0;
   }
 
-  prev_b = UINT_MAX;
+  prev_b = (IT) -1;
 
   // Read data section
   for(IT i=0; i<A->nnz; i++){
-    fr  = fread(&b, sizeof(IT), 1, f);
-    fr += fread(&cur_row, sizeof(IT), 1, f);
-    fr += fread(&cur_col, sizeof(IT), 1, f);
-    fr += fread(&cur_val, sizeof(T), 1, f);
-    if(fr != 4){
+    valid = read_bin_blocked_element(f, &cur, i > 0 ? &prev : NULL, blockrow_offset, blockrows, blockcol_offset, blockcols);
+    if(!valid || (cur.block != prev_b && ++blocks_read > A->nnzblocks)){
       fprintf(stderr, "Error while reading data section.\n");
+      fclose(f);
       return -4;
     }
+    prev = cur;
+    b = cur.block;
+    cur_row = cur.row;
+    cur_col = cur.col;
+    cur_val = cur.val;
 
     // Check if this is the begining of a new block
     if( b != prev_b){
-      assert(b > prev_b || prev_b == UINT_MAX);
       prev_b = b;
       br = b / blockcols;
       bc = b % blockcols;
@@ -327,6 +369,10 @@ int read_bin_blocked(Bcsr<T, IT> * A, const char * filename,
       br_size = blockrow_offset[br + 1] - br_offset;
 
       // CSR block initialize
+      A->blocks[b].rows = br_size;
+      A->blocks[b].columns = blockcol_offset[bc + 1] - bc_offset;
+      A->blocks[b].val = A->val + i;
+      A->blocks[b].col_ind = A->col_ind + i;
       A->blocks[b].row_ptr = (IT *) calloc(br_size + 1, sizeof(IT));
       if(A->blocks[b].row_ptr == NULL){
         fprintf(stderr, "Could not allocate memory for block.\n");
@@ -334,10 +380,6 @@ int read_bin_blocked(Bcsr<T, IT> * A, const char * filename,
       }
     }
 
-    assert(cur_row >= br_offset);
-    assert(cur_row  < br_size + br_offset);
-    assert(cur_col >= bc_offset);
-
     A->blocks[b].row_ptr[cur_row - br_offset + 1]++;  // Count non-zeros per row
     A->col_ind[i] = cur_col - bc_offset;
     A->val[i] = cur_val;
@@ -345,10 +387,15 @@ int read_bin_blocked(Bcsr<T, IT> * A, const char * filename,
 
   fclose(f);
 
+  if(blocks_read != A->nnzblocks){
+    fprintf(stderr, "Error while reading data section.\n");
+    return -4;
+  }
+
   DEBUG(puts("Reading data section done"));
 
   // Get row pointers from row non-zero counters
-  for(IT bi=0; bi<A->nnzblocks; bi++){
+  for(IT bi=0; bi<A->blockrows*A->blockcols; bi++){
     for(IT i=0; i<A->blocks[bi].rows; i++){
       A->blocks[bi].row_ptr[i+1] = A->blocks[bi].row_ptr[i+1] + A->blocks[bi].row_ptr[i];
     }
@@ -364,18 +411,15 @@ template <class T, class IT, class SIT>
 int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
   IT * blockrow_offset, IT blockrows, IT * blockcol_offset, IT blockcols)
 {
-  Element<T, IT> * temp_array;
+  std::vector<Element<T, IT>> elements;  // Elements of the current block
+  Element<T, IT> cur, prev;
   MatrixType block_type;
-  IT block_index, block_nnz, block_start;
-  IT br, br_offset, br_size;
-  IT bc, bc_offset, bc_size;
-  IT b, prev_b;
-  IT cur_row, cur_col;
-  T cur_val;
-  size_t fr;
+  IT br, bc;
+  IT blocks_read = 0;
 
   // Open file, read header and validate
-  FILE * f = read_bin_blocked_common<Cgbr<T, IT, SIT>, IT>(A, filename, blockrow_offset, blockrows, blockcol_offset, blockcols);
+  FILE * f = read_bin_blocked_common<Cgbr<T, IT, SIT>, T, IT>(A, filename, blockrow_offset, blockrows, blockcol_offset, blockcols);
+  if(f == NULL) return -1;
 
   // Allocate memory
   A->blocks = new MatrixBlock<T, IT, SIT>[A->nnzblocks];
@@ -389,74 +433,51 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
 
   DEBUG(puts("Memory allocation done"));
 
-  block_index = 0;
-  block_start = 0;
-
-  fread(&prev_b, sizeof(IT), 1, f);
-  fread(&cur_row, sizeof(IT), 1, f);
-  fread(&cur_col, sizeof(IT), 1, f);
-  fread(&cur_val, sizeof(T), 1, f);
-
   // Read data section
   for(IT i=0; i<A->nnz; i++){
-    fr =  fread(&b, sizeof(IT), 1, f);
-    fr += fread(&cur_row, sizeof(IT), 1, f);
-    fr += fread(&cur_col, sizeof(IT), 1, f);
-    fr += fread(&cur_val, sizeof(T), 1, f);
-
-    // Check if this is the begining of a new block
-    if( b != prev_b || fr == 0){
-      br = prev_b / blockcols;
-      bc = prev_b % blockcols;
-      br_offset = blockrow_offset[br];
-      bc_offset = blockcol_offset[bc];
-      br_size = blockrow_offset[br + 1] - br_offset;
-      bc_size = blockcol_offset[bc + 1] - bc_offset;
+    if(!read_bin_blocked_element(f, &cur, i > 0 ? &prev : NULL, blockrow_offset, blockrows, blockcol_offset, blockcols) ||
+       ((i == 0 || cur.block != prev.block) && blocks_read >= A->nnzblocks)){
+      fprintf(stderr, "Error while reading data section.\n");
+      fclose(f);
+      return -4;
+    }
+    prev = cur;
+    br = cur.block / blockcols;
+    bc = cur.block % blockcols;
 
+    if(elements.empty()){
       // Block meta data
       A->blockrow_ptr[br+1]++;
-      A->blockcol_ind[block_index] = bc;
+      A->blockcol_ind[blocks_read++] = bc;
+    }
 
-      // Read new block in memory
-      block_nnz = i - block_start;
-      temp_array = new Element<T,IT>[block_nnz];
-      if(fr == 4)
-        fseek(f, - ((long) ((block_nnz + 1) * (3*sizeof(IT) + sizeof(T)))), SEEK_CUR);
-      else
-        fseek(f, - ((long) (block_nnz * (3*sizeof(IT) + sizeof(T)))), SEEK_CUR);
-
-      for(IT j=0; j<block_nnz; j++){
-        fread(&(temp_array[j].block), sizeof(IT), 1, f);
-        fread(&(temp_array[j].row), sizeof(IT), 1, f);
-        fread(&(temp_array[j].col), sizeof(IT), 1, f);
-        fread(&(temp_array[j].val), sizeof(T), 1, f);
-
-        assert(temp_array[j].block == prev_b);
-        assert(temp_array[j].row   >= br_offset);
-        assert(temp_array[j].row   <  br_offset + br_size);
-        assert(temp_array[j].col   >= bc_offset);
-        assert(temp_array[j].col   <  bc_offset + bc_size);
-
-        temp_array[j].row -= br_offset;
-        temp_array[j].col -= bc_offset;
-      }
+    cur.row -= blockrow_offset[br];
+    cur.col -= blockcol_offset[bc];
+    elements.push_back(cur);
 
-      // Initialize new block
-      block_type = Coo_to_MatrixBlock(A->blocks + block_index, br_size, bc_size, temp_array, block_nnz);
-      A->type_block_count[block_type]++;
-      A->type_nnz_count[block_type] += block_nnz;
+    // Check if this is the end of the block
+    IT next;
+    bool last = (i + 1 == A->nnz) || fread(&next, sizeof(IT), 1, f) != 1;
+    if(!last) fseek(f, -((long) sizeof(IT)), SEEK_CUR);
 
-      // Prepare for next block
-      delete [] temp_array;
-      fseek(f, (long)  (3*sizeof(IT) + sizeof(T)), SEEK_CUR);
-      block_index++;
-      block_start = i;
-      prev_b = b;
+    if(last || next != cur.block){
+      block_type = Coo_to_MatrixBlock(A->blocks + blocks_read - 1,
+                      blockrow_offset[br + 1] - blockrow_offset[br],
+                      blockcol_offset[bc + 1] - blockcol_offset[bc],
+                      elements.data(), (IT) elements.size());
+      A->type_block_count[block_type]++;
+      A->type_nnz_count[block_type] += (IT) elements.size();
+      elements.clear();
     }
   }
 
   fclose(f);
 
+  if(blocks_read != A->nnzblocks){
+    fprintf(stderr, "Error while reading data section.\n");
+    return -4;
+  }
+
   DEBUG(puts("Reading data section done"));
 
   for (br=0; br<A->blockrows; br++)
@@ -465,7 +486,8 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
   }
   assert(A->blockrow_ptr[blockrows] == A->nnzblocks);
 
-  partition_init(A);
+  A->balanced = A->is_balanced();
+  if(!A->balanced) partition_init(A);
 
   return 0;
 }
-- 
2.43.0


From fb688a7bfce8e7bb5165768903ea0b3de72a9bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:32 +0000
Subject: [PATCH 22/46] fix: MatrixMarket banner words cannot overflow,
 malformed size lines are rejected

---
 dep/mm_io/mm_io.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index cfefd2e..c0465a2 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -85,7 +85,7 @@ int mm_read_banner ( FILE *f, MM_typecode *matcode )
     return MM_PREMATURE_EOF;
   }
 
-  if ( sscanf ( line, "%s %s %s %s %s", banner, mtx, crd, data_type,
+  if ( sscanf ( line, "%63s %63s %63s %63s %63s", banner, mtx, crd, data_type,
     storage_scheme ) != 5 )
   {
     return MM_PREMATURE_EOF;
@@ -451,20 +451,14 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
 /*
   line[] is either blank or has M,N, nz
 */
-  if (sscanf(line, "%d %d %d", M, N, nz) == 3)
+  num_items_read = sscanf(line, "%d %d %d", M, N, nz);
+  if (num_items_read == EOF)  /* blank line */
   {
-    return 0;
+    num_items_read = fscanf(f, "%d %d %d", M, N, nz);
   }
-  else
+  if (num_items_read != 3)
   {
-    do
-    {
-      num_items_read = fscanf(f, "%d %d %d", M, N, nz);
-      if (num_items_read == EOF)
-      {
-        return MM_PREMATURE_EOF;
-      }
-    } while (num_items_read != 3);
+    return MM_PREMATURE_EOF;
   }
   return 0;
 }
-- 
2.43.0


From 8c8db2935c1eee1f5b4236a20fcb8edd55d26d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:38 +0000
Subject: [PATCH 23/46] fix: tools do not overflow the buffer of the output
 file name

---
 include/common.h         |  1 +
 src/common.cpp           | 13 +++++++++++++
 src/tools/convert.cpp    |  6 ++----
 src/tools/double2float.c |  6 +++++-
 src/tools/expanded.cpp   |  3 +--
 src/tools/one2zero.c     |  6 +++++-
 src/tools/permute.cpp    |  6 ++----
 src/tools/prepare.cpp    | 12 ++++--------
 src/tools/sort.cpp       | 12 ++++--------
 9 files changed, 37 insertions(+), 28 deletions(-)

diff --git a/include/common.h b/include/common.h
index 49b07a3..569a1a5 100644
--- a/include/common.h
+++ b/include/common.h
@@ -15,6 +15,7 @@ void print_timing_csv (char const *method, unsigned long nnz, unsigned long iter
 
 int string_ends_with(const char * str, const char * suffix);
 size_t get_file_size(const char * filename);
+void output_filename(char * buf, size_t size, const char * name, const char * suffix);
 
 uint64_t next_power_of_two(uint64_t n);
 
diff --git a/src/common.cpp b/src/common.cpp
index ebee359..bf8c18d 100644
--- a/src/common.cpp
+++ b/src/common.cpp
@@ -98,6 +98,19 @@ size_t get_file_size(const char * filename)
   return size;
 }
 
+/*
+ * Write a file name followed by a suffix in a buffer
+ */
+void output_filename(char * buf, size_t size, const char * name, const char * suffix)
+{
+  if (strlen(name) + strlen(suffix) >= size) {
+    fprintf(stderr, "File name %s is too long\n", name);
+    exit(1);
+  }
+  strcpy(buf, name);
+  strcat(buf, suffix);
+}
+
 /*
  * Calculate the smallest power of two that is equal or greater than given
  * number.
diff --git a/src/tools/convert.cpp b/src/tools/convert.cpp
index 31e89f7..7132322 100644
--- a/src/tools/convert.cpp
+++ b/src/tools/convert.cpp
@@ -63,8 +63,7 @@ int main(int argc, char * argv[])
 
   // Create a matrix market file
   if (mtx) {
-    strncpy(buf, argv[4], FNBUFL-10);
-    strcat(buf, ".mtx");
+    output_filename(buf, FNBUFL, argv[4], ".mtx");
     printf("Writing to file %s ...", buf); fflush(stdout);
     tick();
     ret = write_mm_COO(&A, buf);
@@ -78,8 +77,7 @@ int main(int argc, char * argv[])
 
   // Create a binary triplet file
   if (bin) {
-    strncpy(buf, argv[4], FNBUFL-10);
-    strcat(buf, ".bin");
+    output_filename(buf, FNBUFL, argv[4], ".bin");
     printf("Writing to file %s ...", buf); fflush(stdout);
     tick();
     ret = write_bin_COO(A, buf);
diff --git a/src/tools/double2float.c b/src/tools/double2float.c
index 33ef055..babf8d0 100644
--- a/src/tools/double2float.c
+++ b/src/tools/double2float.c
@@ -25,7 +25,11 @@ int main(int argc, char * argv[])
   for(int i=1; i<argc; i++){
 
     // Create new filename for output
-    strncpy(buf, argv[i], FNBUFL-7);
+    if (strlen(argv[i]) + strlen(SUFFIX) >= FNBUFL) {
+      fprintf(stderr, "File name %s is too long\n", argv[i]);
+      return 1;
+    }
+    strcpy(buf, argv[i]);
     strcat(buf, SUFFIX);
     printf("Output file : %s\n", buf);
 
diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index 688c3f2..c25096f 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -72,9 +72,8 @@ int main(int argc, char * argv[]){
   A.columns = new_block_size * A.blockcols;
 
   // Create new filename for output
-  strncpy(buf, argv[5], FNBUFL-10);
   sprintf(buf2, SUFFIX, (unsigned long) new_block_size);
-  strcat(buf, buf2);
+  output_filename(buf, FNBUFL, argv[5], buf2);
   printf("Output file : %s\n", buf);
 
   // Write result to disk
diff --git a/src/tools/one2zero.c b/src/tools/one2zero.c
index 9b8520d..3f967db 100644
--- a/src/tools/one2zero.c
+++ b/src/tools/one2zero.c
@@ -22,7 +22,11 @@ int main (int argc, char * argv[])
   for (int i=1; i<argc; i++) {
 
     // Create new filename for output
-    strncpy(buf, argv[i], FNBUFL-7);
+    if (strlen(argv[i]) + strlen(SUFFIX) >= FNBUFL) {
+      fprintf(stderr, "File name %s is too long\n", argv[i]);
+      return 1;
+    }
+    strcpy(buf, argv[i]);
     strcat(buf, SUFFIX);
     printf("Output file : %s\n", buf);
 
diff --git a/src/tools/permute.cpp b/src/tools/permute.cpp
index 8536b35..3fedbe5 100644
--- a/src/tools/permute.cpp
+++ b/src/tools/permute.cpp
@@ -53,8 +53,7 @@ int main(int argc, char * argv[])
   permute_indeces(I, permutation, (INDEXTYPE) size);
 
   // Create new filename for output
-  strncpy(buf, argv[2], FNBUFL-10);
-  strcat(buf, SUFFIX);
+  output_filename(buf, FNBUFL, argv[2], SUFFIX);
   fprintf(stdout, "Output file : %s\n", buf);
 
   // Write result to disk
@@ -78,8 +77,7 @@ int main(int argc, char * argv[])
   permute_indeces(I, permutation, (INDEXTYPE) size);
 
   // Create new filename for output
-  strncpy(buf, argv[1], FNBUFL-10);
-  strcat(buf, SUFFIX);
+  output_filename(buf, FNBUFL, argv[1], SUFFIX);
   fprintf(stdout, "Output file : %s\n", buf);
 
   // Write result to disk
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index 3a4f9df..e8cf60d 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -135,8 +135,7 @@ int main(int argc, char * argv[])
   printf(" done in %.3f sec\n", t);
 
   // Write binary triples file with sorted rows
-  strncpy(buf, argv[6], FNBUFL-10);
-  strcat(buf, ".row");
+  output_filename(buf, FNBUFL, argv[6], ".row");
   printf("Writing to file %s ...", buf); fflush(stdout);
 
   tick();
@@ -162,8 +161,7 @@ int main(int argc, char * argv[])
   printf(" done in %.3f sec\n", t);
 
   // Write file in binary blocked format
-  strncpy(buf, argv[6], FNBUFL-10);
-  strcat(buf, ".block");
+  output_filename(buf, FNBUFL, argv[6], ".block");
 
   printf("Writing to file %s ...", buf); fflush(stdout);
   tick();
@@ -183,8 +181,7 @@ int main(int argc, char * argv[])
   printf(" done in %.3f sec\n", t);
 
   // Write binary triples file with sorted columns
-  strncpy(buf, argv[6], FNBUFL-10);
-  strcat(buf, ".col");
+  output_filename(buf, FNBUFL, argv[6], ".col");
 
   printf("Writing to file %s ...", buf); fflush(stdout);
   tick();
@@ -204,9 +201,8 @@ int main(int argc, char * argv[])
   printf(" done in %.3f sec\n", t);
 
   // Write binary triples file with sorted columns and expanded indeces
-  strncpy(buf, argv[6], FNBUFL-20);
   snprintf(ext, FNBUFL, ".col.exp%lu", (unsigned long) new_block_size);
-  strcat(buf, ext);
+  output_filename(buf, FNBUFL, argv[6], ext);
   A.rows = new_block_size * A.blockrows;
   A.columns = new_block_size * A.blockcols;
 
diff --git a/src/tools/sort.cpp b/src/tools/sort.cpp
index e9e545e..ec631f6 100644
--- a/src/tools/sort.cpp
+++ b/src/tools/sort.cpp
@@ -65,16 +65,13 @@ int main(int argc, char * argv[]){
     case 5 :
     case 4 :
       // Create new filenames for output
-      strncpy(buf_row, argv[1], FNBUFL-10);
-      strcat(buf_row, SUFFIX);
+      output_filename(buf_row, FNBUFL, argv[1], SUFFIX);
       fprintf(stdout, "Output file for rows : %s\n", buf_row);
 
-      strncpy(buf_col, argv[2], FNBUFL-10);
-      strcat(buf_col, SUFFIX);
+      output_filename(buf_col, FNBUFL, argv[2], SUFFIX);
       fprintf(stdout, "Output file for columns : %s\n", buf_col);
 
-      strncpy(buf_val, argv[3], FNBUFL-10);
-      strcat(buf_val, SUFFIX);
+      output_filename(buf_val, FNBUFL, argv[3], SUFFIX);
       fprintf(stdout, "Output file for values : %s\n", buf_val);
 
       // Write result to disk
@@ -83,8 +80,7 @@ int main(int argc, char * argv[]){
     case 3 :
     case 2 :
       // Create filename for output
-      strncpy(buf_mtx, argv[1], FNBUFL-10);
-      strcat(buf_mtx, SUFFIX);
+      output_filename(buf_mtx, FNBUFL, argv[1], SUFFIX);
       fprintf(stdout, "Output file for rows : %s\n", buf_mtx);
 
       // Write result to disk
-- 
2.43.0


From 9c9d2078fce90196077945caa7e7a85acf708b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:04 +0000
Subject: [PATCH 24/46] fix: sort tool reads the block sizes of a MatrixMarket
 file and sorts by block offsets

---
 src/tools/sort.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/tools/sort.cpp b/src/tools/sort.cpp
index ec631f6..772b555 100644
--- a/src/tools/sort.cpp
+++ b/src/tools/sort.cpp
@@ -15,7 +15,7 @@ int main(int argc, char * argv[]){
   Coo2<double, uint32_t> A;
   int i, ret1=0, ret2=0;
   size_t size;
-  uint32_t * block_sizes;
+  uint32_t * block_sizes, * block_offsets;
   char buf_row[FNBUFL], buf_col[FNBUFL], buf_val[FNBUFL], buf_mtx[FNBUFL];
 
   // Read files
@@ -27,7 +27,7 @@ int main(int argc, char * argv[]){
                             (&A, argv[1], argv[2], argv[3]);
       break;
     case 3 :
-      ret2 = read_bin_array(argv[4], &block_sizes, &size );
+      ret2 = read_bin_array(argv[2], &block_sizes, &size );
     case 2 :
       ret1 = read_mm_COO(&A, argv[1]);
       break;
@@ -50,8 +50,16 @@ int main(int argc, char * argv[]){
     case 5 :
     case 3 :
       // Sort according to blocks
+      block_offsets = (uint32_t *) malloc((size + 1) * sizeof(uint32_t));
+      size_to_offset(block_offsets, block_sizes, (uint32_t) size);
+      if(A.rows > block_offsets[size] || A.columns > block_offsets[size]){
+        fprintf(stderr, "Blocks do not cover the matrix.\n");
+        exit(1);
+      }
       sort_triplets_blocks(A.triplets, A.nnz,
-            block_sizes, (uint32_t) size, block_sizes, (uint32_t) size);
+            block_offsets, (uint32_t) size, block_offsets, (uint32_t) size);
+      free(block_sizes);
+      free(block_offsets);
       break;
     case 4 :
     case 2 :
-- 
2.43.0


From 2c78cfaafbb3c34ace87e7235a0ab0d7327f16b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:04 +0000
Subject: [PATCH 25/46] fix: tools release memory the way it was allocated

---
 src/tools/convert_blocked.cpp |  2 +-
 src/tools/expanded.cpp        |  2 +-
 src/tools/permute.cpp         | 12 ++++--------
 src/tools/prepare.cpp         |  2 +-
 4 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/tools/convert_blocked.cpp b/src/tools/convert_blocked.cpp
index 7eb6c51..26e5d35 100644
--- a/src/tools/convert_blocked.cpp
+++ b/src/tools/convert_blocked.cpp
@@ -98,6 +98,6 @@ int main(int argc, char * argv[]){
     printf(" done in %.3f sec\n", t);
   }
 
-  free(A.elements);
+  release(A);
   return 0;
 }
diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index c25096f..87a42ca 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -87,6 +87,6 @@ int main(int argc, char * argv[]){
   // Clean up
   free(block_size);
   free(block_offset);
-  free(A.elements);
+  release(A);
   return 0;
 }
diff --git a/src/tools/permute.cpp b/src/tools/permute.cpp
index 3fedbe5..a7e0a14 100644
--- a/src/tools/permute.cpp
+++ b/src/tools/permute.cpp
@@ -14,7 +14,7 @@
 
 int main(int argc, char * argv[])
 {
-  INDEXTYPE *I, *permutation, *inv_permutation;
+  INDEXTYPE *I, *permutation;
   int i, ret;
   size_t perm_size, size;
   char buf[FNBUFL];
@@ -32,14 +32,10 @@ int main(int argc, char * argv[])
   printf("Reading complete : permutation vector of size %lu\n", perm_size);
 
   #ifdef INVPERM
-  inv_permutation = invert_permutation(permutation, (INDEXTYPE) perm_size);
-  if (inv_permutation == NULL) {
-    fprintf(stderr, "Could not invert permutation vector\n");
-    return 1;
-  }
+  INDEXTYPE *inv_permutation = invert_permutation(permutation, (INDEXTYPE) perm_size);
   printf("Inverted permutation vector\n");
-  free(permutation);
-  permutation = inv_permutation;
+  memcpy(permutation, inv_permutation, perm_size * sizeof(INDEXTYPE));
+  delete [] inv_permutation;
   #endif
 
   // Permute columns first
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index e8cf60d..cb8d209 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -219,7 +219,7 @@ int main(int argc, char * argv[])
   // Memory clean up
   free(block_sizes);
   free(block_offsets);
-  free(A.elements);
+  release(A);
 
   // Clean up temporary storage
   system("rm -rf /tmp/csbr_prepare");
-- 
2.43.0


From a6d1d9192db9e9b22eec6cfe12f24086b7d27e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:04 +0000
Subject: [PATCH 26/46] fix: tools write the dimensions of the blocked matrix,
 reject matrices the blocks do not cover

---
 src/tools/convert_blocked.cpp | 10 ++++++++--
 src/tools/expanded.cpp        | 18 ++++++++++++++----
 src/tools/prepare.cpp         | 12 +++++++++---
 3 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/tools/convert_blocked.cpp b/src/tools/convert_blocked.cpp
index 26e5d35..07f7af4 100644
--- a/src/tools/convert_blocked.cpp
+++ b/src/tools/convert_blocked.cpp
@@ -52,8 +52,6 @@ int main(int argc, char * argv[]){
   }
   size_to_offset(block_offsets, block_sizes, A.blockrows);
 
-  A.rows = block_offsets[A.blockrows];
-  A.columns = block_offsets[A.blockcols];
   free(block_sizes);  // Block sizes not needed anymore
 
   printf("Reading matrix from disk..."); fflush(stdout);
@@ -66,6 +64,14 @@ int main(int argc, char * argv[]){
   }
   printf(" done in %.3f sec\n", t);
 
+  // Reading sets the dimensions to those the elements need
+  if(A.rows > block_offsets[A.blockrows] || A.columns > block_offsets[A.blockcols]){
+    fprintf(stderr, "Blocks do not cover the matrix.\n");
+    exit(1);
+  }
+  A.rows = block_offsets[A.blockrows];
+  A.columns = block_offsets[A.blockcols];
+
   printf("Matrix info : %lux%lu matrix with %lu non-zeros\n", (unsigned long) A.rows, (unsigned long) A.columns, (unsigned long) A.nnz);
 
   printf("Calculating block ids..."); fflush(stdout);
diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index 87a42ca..4d82a2b 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -37,19 +37,29 @@ int main(int argc, char * argv[]){
 
   block_offset = (INDEXTYPE *) malloc((blocks+1) * sizeof(INDEXTYPE));
   size_to_offset(block_offset, block_size, (INDEXTYPE) blocks);
-  A.rows = block_offset[blocks];
-  A.columns = block_offset[blocks];
   A.blockrows = (INDEXTYPE) blocks;
   A.blockcols = (INDEXTYPE) blocks;
 
   printf("Matrix info :\n\t%lu rows x %lu columns\n\t%lu blocks\n",
-          (unsigned long) A.rows, (unsigned long) A.columns,
+          (unsigned long) block_offset[blocks], (unsigned long) block_offset[blocks],
           (unsigned long) A.blockrows);
 
   printf("Reading matrix from disk..."); fflush(stdout);
-  read_bin_COO(&A, argv[1], argv[2], argv[3]);
+  ret = read_bin_COO(&A, argv[1], argv[2], argv[3]);
+  if(ret<0){
+    fprintf(stderr, "Error while reading matrix.\n");
+    return 1;
+  }
   printf(" done\n");
 
+  // Reading sets the dimensions to those the elements need
+  if(A.rows > block_offset[A.blockrows] || A.columns > block_offset[A.blockcols]){
+    fprintf(stderr, "Blocks do not cover the matrix.\n");
+    exit(1);
+  }
+  A.rows = block_offset[A.blockrows];
+  A.columns = block_offset[A.blockcols];
+
   printf("Calculating block ids... "); fflush(stdout);
   tick();
   calculate_block_id(A.elements, A.nnz, block_offset, A.blockrows, block_offset, A.blockcols);
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index cb8d209..566f2c7 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -109,14 +109,20 @@ int main(int argc, char * argv[])
   }
   size_to_offset(block_offsets, block_sizes, (INDEXTYPE) blocks);
 
-  A.rows = block_offsets[A.blockrows];
-  A.columns = block_offsets[A.blockcols];
-
   ret = read_bin_COO(&A, TMPROWS, TMPCOLS, argv[3]);
   if(ret<0){
     fprintf(stderr, "Error while reading matrix.\n");
     exit(1);
   }
+
+  // Reading sets the dimensions to those the elements need
+  if(A.rows > block_offsets[A.blockrows] || A.columns > block_offsets[A.blockcols]){
+    fprintf(stderr, "Blocks do not cover the matrix.\n");
+    exit(1);
+  }
+  A.rows = block_offsets[A.blockrows];
+  A.columns = block_offsets[A.blockcols];
+
   printf("Matrix loaded to memory.\n");
   printf("Matrix info : %lux%lu matrix with %lu non-zeros\n", (unsigned long) A.rows, (unsigned long) A.columns, (unsigned long) A.nnz);
 
-- 
2.43.0


From caa9185504dfd64bc0103663d11e4b8fa401e5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:04 +0000
Subject: [PATCH 27/46] fix: pprint stops when the file cannot be opened

---
 src/tools/pprint.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/pprint.c b/src/tools/pprint.c
index ac73ef6..cdcadf4 100644
--- a/src/tools/pprint.c
+++ b/src/tools/pprint.c
@@ -38,6 +38,7 @@ int main (int argc, char * argv[])
     f = fopen(argv[1], "rb");
     if(f==NULL){
         fprintf(stderr, "Could not open file.\n");
+        return 1;
     }
 
     switch(mode) {
-- 
2.43.0


From 5571f6c437be8a112e6a9cbdf9cb400567c70624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 28/46] fix: tools report a failed write in their exit status

---
 src/tools/convert.cpp         | 5 ++++-
 src/tools/convert_blocked.cpp | 4 +++-
 src/tools/expanded.cpp        | 4 +++-
 src/tools/permute.cpp         | 5 ++++-
 src/tools/prepare.cpp         | 7 ++++++-
 src/tools/sort.cpp            | 4 +++-
 6 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/tools/convert.cpp b/src/tools/convert.cpp
index 7132322..5f6df1a 100644
--- a/src/tools/convert.cpp
+++ b/src/tools/convert.cpp
@@ -20,6 +20,7 @@
  */
 int main(int argc, char * argv[])
 {
+  int status = 0;
   Coo2<VALUETYPE, INDEXTYPE> A;
   char buf[FNBUFL];
   int ret;
@@ -70,6 +71,7 @@ int main(int argc, char * argv[])
     t = tock();
     if(ret<0){
       fprintf(stderr, "Error while writing matrix to disk.\n");
+      status = 1;
     }else{
       printf(" done in %.3f sec\n", t);
     }
@@ -84,11 +86,12 @@ int main(int argc, char * argv[])
     t = tock();
     if (ret<0) {
       fprintf(stderr, "Error while writing matrix to disk.\n");
+      status = 1;
     } else {
       printf(" done in %.3f sec\n", t);
     }
   }
 
   release(A);
-  return 0;
+  return status;
 }
diff --git a/src/tools/convert_blocked.cpp b/src/tools/convert_blocked.cpp
index 07f7af4..ecf09a9 100644
--- a/src/tools/convert_blocked.cpp
+++ b/src/tools/convert_blocked.cpp
@@ -19,6 +19,7 @@ it stores the matrix (with the block IDs) to a file on disk.
 Matrix  must be zero-indexed
 */
 int main(int argc, char * argv[]){
+  int status = 0;
   Coo3<VALUETYPE, INDEXTYPE> A;
   int i, ret;
   double t;
@@ -100,10 +101,11 @@ int main(int argc, char * argv[]){
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing resulting matrix to disk.\n");
+    status = 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
 
   release(A);
-  return 0;
+  return status;
 }
diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index 4d82a2b..f72e039 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -15,6 +15,7 @@
 #define INDEXTYPE uint32_t
 
 int main(int argc, char * argv[]){
+  int status = 0;
   Coo3<VALUETYPE, INDEXTYPE> A;
   INDEXTYPE new_block_size;
   INDEXTYPE *block_size, *block_offset;
@@ -90,6 +91,7 @@ int main(int argc, char * argv[]){
   ret = write_bin_COO(A, buf);
   if(ret<0){
     fprintf(stderr, "Error while writing result to disk.\n");
+    status = 1;
   }else{
     printf("Writing complete.\n");
   }
@@ -98,5 +100,5 @@ int main(int argc, char * argv[]){
   free(block_size);
   free(block_offset);
   release(A);
-  return 0;
+  return status;
 }
diff --git a/src/tools/permute.cpp b/src/tools/permute.cpp
index a7e0a14..ab90b89 100644
--- a/src/tools/permute.cpp
+++ b/src/tools/permute.cpp
@@ -14,6 +14,7 @@
 
 int main(int argc, char * argv[])
 {
+  int status = 0;
   INDEXTYPE *I, *permutation;
   int i, ret;
   size_t perm_size, size;
@@ -56,6 +57,7 @@ int main(int argc, char * argv[])
   ret = write_bin_array(buf, I, size);
   if (ret<0) {
     fprintf(stderr, "Error while writing result to disk.\n");
+    status = 1;
   }else{
     printf("Writing complete.\n");
   }
@@ -80,6 +82,7 @@ int main(int argc, char * argv[])
   ret = write_bin_array(buf, I, size);
   if(ret<0){
     fprintf(stderr, "Error while writing result to disk.\n");
+    status = 1;
   }else{
     printf("Writing complete.\n");
   }
@@ -88,5 +91,5 @@ int main(int argc, char * argv[])
 
   // Clean up
   free(permutation);
-  return 0;
+  return status;
 }
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index 566f2c7..1d2d963 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -19,6 +19,7 @@
 
 int main(int argc, char * argv[])
 {
+  int status = 0;
   int i, ret;
   char buf[FNBUFL], ext[FNBUFL];
   double t;
@@ -149,6 +150,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    status = 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
@@ -175,6 +177,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    status = 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
@@ -195,6 +198,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    status = 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
@@ -218,6 +222,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    status = 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
@@ -230,5 +235,5 @@ int main(int argc, char * argv[])
   // Clean up temporary storage
   system("rm -rf /tmp/csbr_prepare");
 
-  return 0;
+  return status;
 }
diff --git a/src/tools/sort.cpp b/src/tools/sort.cpp
index 772b555..3146736 100644
--- a/src/tools/sort.cpp
+++ b/src/tools/sort.cpp
@@ -12,6 +12,7 @@
 #define FNBUFL 128
 
 int main(int argc, char * argv[]){
+  int status = 0;
   Coo2<double, uint32_t> A;
   int i, ret1=0, ret2=0;
   size_t size;
@@ -99,8 +100,9 @@ int main(int argc, char * argv[]){
   // Check write
   if(ret1<0){
     fprintf(stderr, "Error while writing resulting matrix to disk.\n");
+    status = 1;
   }
 
   release(A);
-  return 0;
+  return status;
 }
-- 
2.43.0


From 594eb0a72cce23f640e0612db2d0f812679dfbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 29/46] fix: permutation tools reject indices outside the
 permutation

---
 include/permute.h     | 17 +++++++++++++++++
 src/tools/permute.cpp | 15 +++++++++++++++
 src/tools/prepare.cpp | 10 ++++++++++
 3 files changed, 42 insertions(+)

diff --git a/include/permute.h b/include/permute.h
index decf97f..41d592b 100644
--- a/include/permute.h
+++ b/include/permute.h
@@ -1,8 +1,25 @@
 #ifndef _PERMUTE_H_
 #define _PERMUTE_H_
 
+#include <stddef.h>
+
 #include <omp.h>
 
+/*
+ * Checks that every index is valid for a permutation of the given size
+ */
+template <typename IT>
+bool indeces_permutable (IT const * indeces, size_t nnz, size_t size)
+{
+    for (size_t i=0; i<nnz; i++) {
+        if (indeces[i] >= size) {
+            return false;
+        }
+    }
+
+    return true;
+}
+
 // This function is copied and slightly modified from SuiteSParse library
 // http://faculty.cse.tamu.edu/davis/suitesparse.html
 template <typename IT>
diff --git a/src/tools/permute.cpp b/src/tools/permute.cpp
index ab90b89..8d575ab 100644
--- a/src/tools/permute.cpp
+++ b/src/tools/permute.cpp
@@ -33,6 +33,11 @@ int main(int argc, char * argv[])
   printf("Reading complete : permutation vector of size %lu\n", perm_size);
 
   #ifdef INVPERM
+  if (!indeces_permutable(permutation, perm_size, perm_size)) {
+    fprintf(stderr, "Not a permutation vector.\n");
+    return 1;
+  }
+
   INDEXTYPE *inv_permutation = invert_permutation(permutation, (INDEXTYPE) perm_size);
   printf("Inverted permutation vector\n");
   memcpy(permutation, inv_permutation, perm_size * sizeof(INDEXTYPE));
@@ -47,6 +52,11 @@ int main(int argc, char * argv[])
   }
   printf("Reading complete : %lu column indeces\n", size);
 
+  if (!indeces_permutable(I, size, perm_size)) {
+    fprintf(stderr, "Column indeces exceed the permutation vector.\n");
+    return 1;
+  }
+
   permute_indeces(I, permutation, (INDEXTYPE) size);
 
   // Create new filename for output
@@ -72,6 +82,11 @@ int main(int argc, char * argv[])
   }
   printf("Reading complete : %lu row indeces\n", size);
 
+  if (!indeces_permutable(I, size, perm_size)) {
+    fprintf(stderr, "Row indeces exceed the permutation vector.\n");
+    return 1;
+  }
+
   permute_indeces(I, permutation, (INDEXTYPE) size);
 
   // Create new filename for output
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index 1d2d963..c07d6d1 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -54,6 +54,11 @@ int main(int argc, char * argv[])
     return 1;
   }
 
+  if (!indeces_permutable(indeces, index_size, perm_size)) {
+    fprintf(stderr, "Row indeces exceed the permutation vector.\n");
+    return 1;
+  }
+
   permute_indeces(indeces, permutation_vec, (INDEXTYPE) index_size);
 
   // Write permuted row indeces to disk
@@ -75,6 +80,11 @@ int main(int argc, char * argv[])
     return 1;
   }
 
+  if (!indeces_permutable(indeces, index_size, perm_size)) {
+    fprintf(stderr, "Column indeces exceed the permutation vector.\n");
+    return 1;
+  }
+
   permute_indeces(indeces, permutation_vec, (INDEXTYPE) index_size);
 
   // Write permuted column indeces to disk
-- 
2.43.0


From b0da0add3e8df19362a685c60862968c2eddcc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:26 +0000
Subject: [PATCH 30/46] fix: the blocked driver uses the block sizes it is
 given

The block size files were only read with an argument count that the check
before rejects. The matrices release the offset arrays with free(), so they
have to come from malloc().
---
 src/drivers/blocked.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drivers/blocked.cpp b/src/drivers/blocked.cpp
index de3c5ed..c6608b3 100644
--- a/src/drivers/blocked.cpp
+++ b/src/drivers/blocked.cpp
@@ -41,7 +41,7 @@ int main(int argc, char * argv[])
     }
     printf(" done in %.4f sec\n", t);
 
-    if (argc == 5) {
+    if (argc == 4) {
 
         // Reading block sizes for rows
         printf("Reading block-row sizes from disk..."); fflush(stdout);
@@ -55,7 +55,7 @@ int main(int argc, char * argv[])
         printf(" done in %.4f sec.\n", t);
 
         printf("Calculating block-row offsets from block sizes..."); fflush(stdout);
-        block_offsets_row = new ITYPE[num_blocks_row + 1];
+        block_offsets_row = (ITYPE *) malloc((num_blocks_row + 1) * sizeof(ITYPE));
         size_to_offset(block_offsets_row, block_sizes, (ITYPE) num_blocks_row);
         printf(" done\n");
 
@@ -73,7 +73,7 @@ int main(int argc, char * argv[])
         printf(" done in %.4f sec.\n", t);
 
         printf("Calculating block-coloumn offsets from block sizes..."); fflush(stdout);
-        block_offsets_col = new ITYPE[num_blocks_col + 1];
+        block_offsets_col = (ITYPE *) malloc((num_blocks_col + 1) * sizeof(ITYPE));
         size_to_offset(block_offsets_col, block_sizes, (ITYPE) num_blocks_col);
         printf(" done\n");
 
-- 
2.43.0


From 7b04c40b3893a55e02db79bf80789dd758ff982c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:33 +0000
Subject: [PATCH 31/46] fix: partition_dump of a matrix without a partition

A balanced GSB matrix has no partition: the pointer was never set.
---
 include/matrix/cgbr.h | 2 +-
 include/partition.h   | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/matrix/cgbr.h b/include/matrix/cgbr.h
index 9602d8b..3a51fa8 100644
--- a/include/matrix/cgbr.h
+++ b/include/matrix/cgbr.h
@@ -108,7 +108,7 @@ struct Cgbr
     IT type_nnz_count[MATRIX_TYPE_NUM];
 
     // Partitioning information
-    BlockRowPartition<IT> * partition;
+    BlockRowPartition<IT> * partition {NULL}; // NULL if balanced
     bool balanced;
 
     // Block size information
diff --git a/include/partition.h b/include/partition.h
index 15b83c3..066e3f8 100644
--- a/include/partition.h
+++ b/include/partition.h
@@ -51,6 +51,12 @@ Index_t partition_blockrow(const Matrix_t * A, BlockRowPartition<Index_t> * part
 template <class Index_t>
 void partition_dump(BlockRowPartition<Index_t> * partition, Index_t blockrows)
 {
+    if (partition == NULL)
+    {
+        printf("block-rows are not partitioned\n");
+        return;
+    }
+
     for (Index_t br=0; br<blockrows; br++)
     {
         printf("%u,%u:\t", br, partition[br].nchunks());
-- 
2.43.0


From a6baf721025b9df5bda139c36947e55920988abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:38 +0000
Subject: [PATCH 32/46] fix: pbench rejects a permutation that does not fit the
 matrix

---
 src/drivers/pbench.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/drivers/pbench.cpp b/src/drivers/pbench.cpp
index dfed47b..e700e66 100644
--- a/src/drivers/pbench.cpp
+++ b/src/drivers/pbench.cpp
@@ -56,6 +56,13 @@ int main(int argc, char * argv[])
     }
     printf("Read permutation vector. Size : %lu\n", perm_size);
 
+    // The permutation is applied to both rows and columns
+    if (perm_size != coo.rows || perm_size != coo.columns
+        || !indeces_permutable(permutation, perm_size, perm_size)) {
+        fprintf(stderr, "Not a permutation of the rows and columns of the matrix\n");
+        return 1;
+    }
+
     #ifdef INVPERM
     inv_permutation = invert_permutation(permutation, (INDEXTYPE) perm_size);
     if (inv_permutation == NULL) {
-- 
2.43.0


From 394e8d15e88a3fb57030175577d411a04fae7646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:59 +0000
Subject: [PATCH 33/46] fix: a Coo matrix that holds nothing can be destroyed

The destructor released pointers that were never set, and a second time
those release() had already released.
---
 include/matrix/coo.1.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/matrix/coo.1.h b/include/matrix/coo.1.h
index f649622..1eb9bdc 100644
--- a/include/matrix/coo.1.h
+++ b/include/matrix/coo.1.h
@@ -11,9 +11,9 @@
 template <typename T, typename IT, typename SIT>
 struct Coo : public BlockBase<T,IT>
 {
-    SIT *I;
-    SIT *J;
-    T *val;
+    SIT *I {nullptr};
+    SIT *J {nullptr};
+    T *val {nullptr};
     IT rows, columns;   // Not always used. Carefull
 
     Coo(Element<T,IT> * array, IT nnz) : BlockBase<T,IT>(nnz)
@@ -77,6 +77,9 @@ void release(Coo<T,IT,SIT>& A)
     delete [] A.I;
     delete [] A.J;
     delete [] A.val;
+    A.I = nullptr;
+    A.J = nullptr;
+    A.val = nullptr;
 }
 
 #endif
-- 
2.43.0


From 7f5d1271f5cd4019f93f936af3b8f2dfd21b6932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:16 +0000
Subject: [PATCH 34/46] fix: sort_triplets_blocks orders the elements of a
 block by row and column

---
 include/utils.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/utils.h b/include/utils.h
index c84b372..659ed21 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -225,12 +225,14 @@ void sort_triplets_blocks(Triplet<T, IT> * array, IT size,
   IT * brow_ptr;
   IT i;
 
-  // Define function to compare block columns
+  // Define function to compare block columns, rows and columns
   auto block_compare = [bcol_offset, blockcols]
                         (Triplet<T, IT> first, Triplet<T, IT> last){
     IT first_bcol = index_to_blockindex(bcol_offset, blockcols, first.col);
     IT last_bcol = index_to_blockindex(bcol_offset, blockcols, last.col);
-    return first_bcol < last_bcol ;
+    return ( first_bcol<last_bcol ||
+            (first_bcol==last_bcol && first.row<last.row) ||
+            (first_bcol==last_bcol && first.row==last.row && first.col<last.col) );
   };
 
   // Define function to compare rows (NOT block-rows)
-- 
2.43.0


From 95e02227ea80906a918b7027d062e8a7843c91ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:08 +0000
Subject: [PATCH 35/46] fix: pprint reports a file that ends early

---
 src/tools/pprint.c | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/tools/pprint.c b/src/tools/pprint.c
index cdcadf4..a0abf51 100644
--- a/src/tools/pprint.c
+++ b/src/tools/pprint.c
@@ -6,6 +6,18 @@
 #define INDEXTYPE uint32_t
 #define VALUETYPE float
 
+/*
+ * Reads one item. A file that ends before it is an error.
+ */
+static void read_item (void * item, size_t size, FILE * f)
+{
+    if (fread(item, size, 1, f) != 1) {
+        fprintf(stderr, "File is too short.\n");
+        fclose(f);
+        exit(1);
+    }
+}
+
 /*
  * Tool to read binary files in some of the formats used in this project
  * WARNING : Always pipe results somewhere (eg. to 'less')
@@ -43,46 +55,46 @@ int main (int argc, char * argv[])
 
     switch(mode) {
         case 0:  // Binary triples file
-        fread(&r, sizeof(INDEXTYPE), 1, f);
-        fread(&c, sizeof(INDEXTYPE), 1, f);
-        fread(&nnz, sizeof(INDEXTYPE), 1, f);
+        read_item(&r, sizeof(INDEXTYPE), f);
+        read_item(&c, sizeof(INDEXTYPE), f);
+        read_item(&nnz, sizeof(INDEXTYPE), f);
         printf("%lu rows x %lu columns, %lu non-zeros\n",
                 (unsigned long) r, (unsigned long) c, (unsigned long) nnz);
 
         for (i=0; i<nnz; i++) {
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_item(&n, sizeof(INDEXTYPE), f);
             printf("%12lu\n", (unsigned long) n);
         }
         printf("---------------------------------------\n");
 
         for (i=0; i<nnz; i++) {
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_item(&n, sizeof(INDEXTYPE), f);
             printf("%12lu\n", (unsigned long) n);
         }
         printf("---------------------------------------\n");
 
         for (i=0; i<nnz; i++) {
-            fread(&v, sizeof(VALUETYPE), 1, f);
+            read_item(&v, sizeof(VALUETYPE), f);
             printf("%12f\n", (double) v);
         }
         break;
 
         case 1: // Binary file with block info (.csbr)
-        fread(&r, sizeof(INDEXTYPE), 1, f);
-        fread(&c, sizeof(INDEXTYPE), 1, f);
-        fread(&nnz, sizeof(INDEXTYPE), 1, f);
-        fread(&n, sizeof(INDEXTYPE), 1, f);
-        fread(&n, sizeof(INDEXTYPE), 1, f);
-        fread(&n, sizeof(INDEXTYPE), 1, f);
+        read_item(&r, sizeof(INDEXTYPE), f);
+        read_item(&c, sizeof(INDEXTYPE), f);
+        read_item(&nnz, sizeof(INDEXTYPE), f);
+        read_item(&n, sizeof(INDEXTYPE), f);
+        read_item(&n, sizeof(INDEXTYPE), f);
+        read_item(&n, sizeof(INDEXTYPE), f);
 
         for (i=0; i<nnz; i++) {
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_item(&n, sizeof(INDEXTYPE), f);
             printf("%12u\t", n);
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_item(&n, sizeof(INDEXTYPE), f);
             printf("%12u\t", n);
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_item(&n, sizeof(INDEXTYPE), f);
             printf("%12u\t", n);
-            fread(&v, sizeof(VALUETYPE), 1, f);
+            read_item(&v, sizeof(VALUETYPE), f);
             printf("%12e\n", v);
         }
         break;
-- 
2.43.0


From 510f7cf25f697ba00e5753e46ec401e2549a9ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:08 +0000
Subject: [PATCH 36/46] fix: BlockCoo::set_value stores the value it is given

---
 include/matrix/block_coo.1.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/matrix/block_coo.1.h b/include/matrix/block_coo.1.h
index 032f6a5..67286f4 100644
--- a/include/matrix/block_coo.1.h
+++ b/include/matrix/block_coo.1.h
@@ -24,7 +24,7 @@ struct BlockCoo
     // Setters
     void set_row_index(IT index, IT row) { I[index] = row; }
     void set_column_index(IT index, IT column) { J[index] = column; }
-    void set_value(IT index, T val) { val[index] = val; }
+    void set_value(IT index, T val_) { val[index] = val_; }
 
     /*
      * Sparse matrix - vector multiplication. Result is stored in y. Memory for
-- 
2.43.0


From fc48108935e05c47319b28bc4846822a2db4962c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:08 +0000
Subject: [PATCH 37/46] fix: an index that does not fit the smaller type of a
 block is refused

---
 include/matrix/block_csr.h | 1 +
 include/matrix/blocks.h    | 1 +
 include/matrix/coo.1.h     | 3 +++
 include/matrix/cswr.h      | 2 +-
 4 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/matrix/block_csr.h b/include/matrix/block_csr.h
index a5cd3d7..21e5c6c 100644
--- a/include/matrix/block_csr.h
+++ b/include/matrix/block_csr.h
@@ -51,6 +51,7 @@ int Coo_to_Csr(BlockCsr<T,IT,SIT> * A, NONZERO * nonzeros,
   for (IT i=0; i<nnz; i++)
   {
     A->col_ind[i] = nonzeros[i].col;
+    assert(A->col_ind[i] == nonzeros[i].col);   // fits in the smaller index
     A->val[i] = nonzeros[i].val;
     (A->row_ptr[nonzeros[i].row + 1])++;
   }
diff --git a/include/matrix/blocks.h b/include/matrix/blocks.h
index 050d317..df7953e 100644
--- a/include/matrix/blocks.h
+++ b/include/matrix/blocks.h
@@ -32,6 +32,7 @@ struct BlockCsrSerial : public BlockBase<T,IT>
 
         for (IT i=0; i<nnz; i++) {
             col_ind[i] = array[i].col;
+            assert(col_ind[i] == array[i].col);     // fits in the smaller index
             val[i]  = array[i].val;
             row_ptr[array[i].row + 1]++;
         }
diff --git a/include/matrix/coo.1.h b/include/matrix/coo.1.h
index 1eb9bdc..c257fc2 100644
--- a/include/matrix/coo.1.h
+++ b/include/matrix/coo.1.h
@@ -1,6 +1,8 @@
 #ifndef _COO_1_H_
 #define _COO_1_H_
 
+#include <cassert>
+
 #include "typedefs.h"
 #include "generic/coo.h"
 #include "generic/base.h"
@@ -26,6 +28,7 @@ struct Coo : public BlockBase<T,IT>
         {
             I[i] = array[i].row;
             J[i] = array[i].col;
+            assert(I[i] == array[i].row && J[i] == array[i].col);   // fit in the smaller index
             val[i] = array[i].val;
         }
     }
diff --git a/include/matrix/cswr.h b/include/matrix/cswr.h
index 8c43ab3..f103df5 100644
--- a/include/matrix/cswr.h
+++ b/include/matrix/cswr.h
@@ -73,7 +73,7 @@ void Coo_to_Cswr (
         A->col[i] = array[i].col;
         A->val[i] = array[i].val;
 
-        assert(A->row[i] < width);
+        assert(A->row[i] == array[i].row % width);   // fits in the smaller index
     }
 
     for (IT j=0; j<A->nwrows; j++) {
-- 
2.43.0


From 976b70c947ffc58c3e2b722b7d971ca8104a9fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:08 +0000
Subject: [PATCH 38/46] fix: the cswr driver refuses a width outside the local
 index range

---
 src/drivers/cswr.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/drivers/cswr.cpp b/src/drivers/cswr.cpp
index dd78510..bce2b7e 100644
--- a/src/drivers/cswr.cpp
+++ b/src/drivers/cswr.cpp
@@ -1,3 +1,5 @@
+#include <limits>
+#include <type_traits>
 #include <stdint.h>
 #include <stdlib.h>
 #include <stdio.h>
@@ -34,6 +36,12 @@ int main(int argc, char * argv[])
       return 1;
   }
 
+  // Rows of a group are numbered with the smaller index
+  if (width < 1 || width - 1 > std::numeric_limits<std::remove_reference_t<decltype(*A.row)>>::max()) {
+      fprintf(stderr, "Width is not in the range of the format.\n");
+      return 1;
+  }
+
   printf("Reading matrix from disk..."); fflush(stdout);
 
   tick();
-- 
2.43.0


From eb5132742bca4c2606073e58612d8fb257f8cc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:22 +0000
Subject: [PATCH 39/46] fix: mm_read_mtx_array_size rejects a malformed size
 line instead of reading on for ever

---
 dep/mm_io/mm_io.c | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index c0465a2..5216a66 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -210,21 +210,14 @@ int mm_read_mtx_array_size ( FILE *f, int *M, int *N )
 /*
   line[] is either blank or has M,N, nz
 */
-  if ( sscanf ( line, "%d %d", M, N ) == 2 )
+  num_items_read = sscanf ( line, "%d %d", M, N );
+  if ( num_items_read == EOF )  /* blank line */
   {
-    return 0;
+    num_items_read = fscanf ( f, "%d %d", M, N );
   }
-  else
+  if ( num_items_read != 2 )
   {
-    do
-    {
-      num_items_read = fscanf ( f, "%d %d", M, N );
-      if ( num_items_read == EOF )
-      {
-        return MM_PREMATURE_EOF;
-      }
-    }
-    while ( num_items_read != 2 );
+    return MM_PREMATURE_EOF;
   }
   return 0;
 }
-- 
2.43.0


From 8da424e223e601612853fb75d29652c5fe4e0705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:22 +0000
Subject: [PATCH 40/46] fix: the MatrixMarket writers report success when they
 succeed

---
 dep/mm_io/mm_io.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index 5216a66..f22f99b 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -667,7 +667,7 @@ int mm_write_banner ( FILE *f, MM_typecode matcode )
 
     ret_code = fprintf(f, "%s %s\n", MatrixMarketBanner, str);
     free(str);
-    if (ret_code !=2 )
+    if (ret_code < 0 )
         return MM_COULD_NOT_WRITE_FILE;
     else
         return 0;
@@ -687,7 +687,7 @@ int mm_write_mtx_array_size(FILE *f, int M, int N)
     31 October 2008
 */
 {
-    if (fprintf(f, "%d %d\n", M, N) != 2)
+    if (fprintf(f, "%d %d\n", M, N) < 0)
         return MM_COULD_NOT_WRITE_FILE;
     else
         return 0;
@@ -772,7 +772,7 @@ int mm_write_mtx_crd_size ( FILE *f, int M, int N, int nz )
     Input, FILE *F, a pointer to the output file.
 */
 {
-  if ( fprintf ( f, "%d %d %d\n", M, N, nz ) != 3 )
+  if ( fprintf ( f, "%d %d %d\n", M, N, nz ) < 0 )
   {
     return MM_COULD_NOT_WRITE_FILE;
   }
-- 
2.43.0


From 3994584134ee408e2b3a510824adbb772293cf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:22 +0000
Subject: [PATCH 41/46] fix: a MatrixMarket type code without a name is refused
 by the writers

---
 dep/mm_io/mm_io.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index f22f99b..ac19162 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -585,7 +585,6 @@ char *mm_typecode_to_str ( MM_typecode matcode )
     char buffer[MM_MAX_LINE_LENGTH];
     char *types[4];
 	char *mm_strdup(const char *);
-    int error =0;
 
 /*
   check for MTX type
@@ -593,7 +592,7 @@ char *mm_typecode_to_str ( MM_typecode matcode )
     if (mm_is_matrix(matcode))
         types[0] = MM_MTX_STR;
     else
-        error=1;
+        return NULL;
 
 /*
   check for CRD or ARR matrix
@@ -665,6 +664,9 @@ int mm_write_banner ( FILE *f, MM_typecode matcode )
     char *str = mm_typecode_to_str(matcode);
     int ret_code;
 
+    if (str == NULL)
+        return MM_UNSUPPORTED_TYPE;
+
     ret_code = fprintf(f, "%s %s\n", MatrixMarketBanner, str);
     free(str);
     if (ret_code < 0 )
@@ -710,17 +712,25 @@ int mm_write_mtx_crd(char fname[], int M, int N, int nz, int I[], int J[],
 {
     FILE *f;
     int i;
+    char *str = mm_typecode_to_str(matcode);
+
+    if (str == NULL)
+        return MM_UNSUPPORTED_TYPE;
 
     if (strcmp(fname, "stdout") == 0)
         f = stdout;
     else
     if ((f = fopen(fname, "w")) == NULL)
+    {
+        free(str);
         return MM_COULD_NOT_WRITE_FILE;
+    }
 /*
   print banner followed by typecode.
 */
     fprintf(f, "%s ", MatrixMarketBanner);
-    fprintf(f, "%s\n", mm_typecode_to_str(matcode));
+    fprintf(f, "%s\n", str);
+    free(str);
 
 /*
   print matrix sizes and nonzeros.
-- 
2.43.0


From 6ecc312f8436d142fb8be42eeb37011617e27a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:22 +0000
Subject: [PATCH 42/46] fix: mm_read_mtx_crd closes its file on errors and
 refuses types it does not read

---
 dep/mm_io/mm_io.c | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index ac19162..716aaac 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -260,14 +260,23 @@ int mm_read_mtx_crd(char *fname, int *M, int *N, int *nz, int **I, int **J,
 
 
     if ((ret_code = mm_read_banner(f, matcode)) != 0)
+    {
+        if (f != stdin) fclose(f);
         return ret_code;
+    }
 
     if (!(mm_is_valid(*matcode) && mm_is_sparse(*matcode) &&
-            mm_is_matrix(*matcode)))
+            mm_is_matrix(*matcode)) || mm_is_integer(*matcode))
+    {
+        if (f != stdin) fclose(f);
         return MM_UNSUPPORTED_TYPE;
+    }
 
     if ((ret_code = mm_read_mtx_crd_size(f, M, N, nz)) != 0)
+    {
+        if (f != stdin) fclose(f);
         return ret_code;
+    }
 
 
     *I = (int *)  malloc(*nz * sizeof(int));
@@ -275,29 +284,22 @@ int mm_read_mtx_crd(char *fname, int *M, int *N, int *nz, int **I, int **J,
     *val = NULL;
 
     if (mm_is_complex(*matcode))
-    {
         *val = (double *) malloc(*nz * 2 * sizeof(double));
-        ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
-                *matcode);
-        if (ret_code != 0) return ret_code;
-    }
     else if (mm_is_real(*matcode))
-    {
         *val = (double *) malloc(*nz * sizeof(double));
-        ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
-                *matcode);
-        if (ret_code != 0) return ret_code;
-    }
 
-    else if (mm_is_pattern(*matcode))
+    ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val, *matcode);
+    if (ret_code != 0)
     {
-        ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
-                *matcode);
-        if (ret_code != 0) return ret_code;
+        free(*I);
+        free(*J);
+        free(*val);
+        *I = *J = NULL;
+        *val = NULL;
     }
 
     if (f != stdin) fclose(f);
-    return 0;
+    return ret_code;
 }
 /******************************************************************************/
 
-- 
2.43.0


From fcff252d4a9c70e6ae58ece10dc1945b2ed8623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:22 +0000
Subject: [PATCH 43/46] fix: mm_read_unsymmetric_sparse reports a file that
 ends early and closes it

---
 dep/mm_io/mm_io.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index 716aaac..d5a015b 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -489,6 +489,7 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
     {
         printf("mm_read_unsymetric: Could not process Matrix Market banner ");
         printf(" in file [%s]\n", fname);
+        fclose(f);
         return -1;
     }
 
@@ -497,9 +498,13 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
     if ( !(mm_is_real(matcode) && mm_is_matrix(matcode) &&
             mm_is_sparse(matcode)))
     {
+        char *str = mm_typecode_to_str(matcode);
+
         fprintf(stderr, "Sorry, this application does not support ");
         fprintf(stderr, "Market Market type: [%s]\n",
-                mm_typecode_to_str(matcode));
+                str ? str : "");
+        free(str);
+        fclose(f);
         return -1;
     }
 
@@ -510,6 +515,7 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
     if (mm_read_mtx_crd_size(f, &M, &N, &nz) !=0)
     {
         fprintf(stderr, "read_unsymmetric_sparse(): could not parse matrix size.\n");
+        fclose(f);
         return -1;
     }
 
@@ -534,7 +540,17 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
 
     for (i=0; i<nz; i++)
     {
-        fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]);
+        if (fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]) != 3)
+        {
+            fprintf(stderr, "read_unsymmetric_sparse(): file is too short.\n");
+            free(I);
+            free(J);
+            free(val);
+            *val_ = NULL;
+            *I_ = *J_ = NULL;
+            fclose(f);
+            return -1;
+        }
 /*
   Adjust from 1-based to 0-based.
 */
-- 
2.43.0


From 5453f455daa2c1b0de52515db3f805c34a1c345e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:34 +0000
Subject: [PATCH 44/46] fix: write_mm_COO refuses sizes that the MatrixMarket
 header cannot hold

---
 include/io/output.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/io/output.h b/include/io/output.h
index 7b4e3ad..62db4b7 100644
--- a/include/io/output.h
+++ b/include/io/output.h
@@ -46,6 +46,13 @@ int write_mm_COO(COO<T,IT> * A, const char * filename)
   const int digits = std::max(std::numeric_limits<T>::max_digits10,
                               std::numeric_limits<T>::digits10 + 1);
 
+  // The header holds the sizes as int
+  const unsigned long limit = std::numeric_limits<int>::max();
+  if (A->rows > limit || A->columns > limit || size > limit) {
+    fprintf(stderr, "Matrix too large for a MatrixMarket file.\n");
+    return -1;
+  }
+
   // Open file for writing
   FILE * f = fopen(filename, "w");
   if (f == NULL) {
-- 
2.43.0


From bf7414dda68ee83405f398dcaa3c2d3fb3fc3168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:07 +0000
Subject: [PATCH 45/46] fix: writers and tools report a write that fails

---
 dep/mm_io/mm_io.c        |  4 +++-
 include/io/output.h      | 33 ++++++++++++++++++++-------------
 src/tools/double2float.c |  7 ++++++-
 src/tools/one2zero.c     |  8 ++++++--
 4 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index d5a015b..0f5ee06 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -777,7 +777,9 @@ int mm_write_mtx_crd(char fname[], int M, int N, int nz, int I[], int J[],
 
   if ( f !=stdout )
   {
-    fclose(f);
+    i = ferror(f);
+    if (fclose(f) != 0 || i != 0)
+      return MM_COULD_NOT_WRITE_FILE;
   }
   return 0;
 }
diff --git a/include/io/output.h b/include/io/output.h
index 62db4b7..2aada86 100644
--- a/include/io/output.h
+++ b/include/io/output.h
@@ -8,6 +8,17 @@
 #include "common.h"
 #include "matrix/coo.3.h"
 
+/*
+ * Close an output file. It returns 0 if everything written has reached the
+ * file, a negative number otherwise.
+ */
+inline int close_output(FILE * f)
+{
+  int failed = ferror(f);
+  if (fclose(f) != 0) failed = 1;
+  return failed ? -2 : 0;
+}
+
 /*
  * Write binary data to a file.
  */
@@ -21,9 +32,8 @@ int write_bin_array(const char * filename, T * data, size_t num )
   f = fopen(filename, "wb");
   if (f==NULL) return -1;
   ret = fwrite(data, sizeof(T), num, f);
-  if (ret < num) return -2;
+  if (close_output(f) < 0 || ret < num) return -2;
 
-  fclose(f);
   return 0;
 }
 
@@ -84,8 +94,7 @@ int write_mm_COO(COO<T,IT> * A, const char * filename)
   }
 
   // Close file
-  fclose(f);
-  return 0;
+  return close_output(f);
 }
 
 /*
@@ -99,7 +108,7 @@ template <typename T, typename IT,
 int write_bin_COO(COO<T,IT> * A,
         const char * file_row, const char * file_col, const char * file_val)
 {
-  int ret;
+  int ret = 0;
   T val;
   IT i, r, c;
   IT nrows = A->rows;
@@ -122,7 +131,7 @@ int write_bin_COO(COO<T,IT> * A,
     r = A->get_row_index(i);
     fwrite(&r, sizeof(IT), 1, fr);
   }
-  fclose(fr);
+  if (close_output(fr) < 0) ret = -2;
 
   // Write column file
   for (i=0; i<size; i++)
@@ -130,7 +139,7 @@ int write_bin_COO(COO<T,IT> * A,
     c = A->get_column_index(i);
     fwrite(&c, sizeof(IT), 1, fc);
   }
-  fclose(fc);
+  if (close_output(fc) < 0) ret = -2;
 
   // Write value file
   for (i=0; i<size; i++)
@@ -138,9 +147,9 @@ int write_bin_COO(COO<T,IT> * A,
     val = A->get_value(i);
     fwrite(&val, sizeof(T), 1, fv);
   }
-  fclose(fv);
+  if (close_output(fv) < 0) ret = -2;
 
-  return 0;
+  return ret;
 }
 
 /*
@@ -183,8 +192,7 @@ int write_bin_COO(COO<T,IT> A, const char * filename)
         fwrite(&vbuffer, sizeof(T), 1, f);
     }
 
-    fclose(f);
-    return 0;
+    return close_output(f);
 }
 
 /*
@@ -218,8 +226,7 @@ int write_bin_blocked(Coo3<T, IT> A, const char * filename)
     fwrite(&(A.elements[i].val) , sizeof(T), 1, f);
   }
 
-  fclose(f);
-  return 0;
+  return close_output(f);
 }
 
 #endif
diff --git a/src/tools/double2float.c b/src/tools/double2float.c
index babf8d0..50cbd0b 100644
--- a/src/tools/double2float.c
+++ b/src/tools/double2float.c
@@ -16,6 +16,7 @@ int main(int argc, char * argv[])
   OLDTYPE v;
   NEWTYPE v_new;
   FILE *f_in, *f_out;
+  int failed;
 
   if (argc < 2){
     fprintf(stderr, "Usage: %s [file-1] [file-2] ... [file-n]\n", argv[0]);
@@ -49,7 +50,11 @@ int main(int argc, char * argv[])
     }
 
     fclose(f_in);
-    fclose(f_out);
+    failed = ferror(f_out);
+    if (fclose(f_out) != 0 || failed) {
+      fprintf(stderr, "Cannot write output file. Aborting.\n");
+      exit(1);
+    }
 
     printf("Conversion complete : %lu values\n", size);
   }
diff --git a/src/tools/one2zero.c b/src/tools/one2zero.c
index 3f967db..f52a738 100644
--- a/src/tools/one2zero.c
+++ b/src/tools/one2zero.c
@@ -64,8 +64,12 @@ int main (int argc, char * argv[])
       return 1;
     }
 
-    fwrite(indeces, sizeof(INDEXTYPE), n, f_out);
-    fclose(f_out);
+    size = fwrite(indeces, sizeof(INDEXTYPE), n, f_out);
+    if (fclose(f_out) != 0 || size < n) {
+      fprintf(stderr, "Cannot write output file. Aborting.\n");
+      free(indeces);
+      return 1;
+    }
 
     printf("Conversion complete : %lu values\n", (unsigned long ) n);
     free(indeces);
-- 
2.43.0


From e34bf046ae9ac0f31e694275cf9c797a208655f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:07 +0000
Subject: [PATCH 46/46] fix: write_bin_COO closes the files that did open when
 one cannot be opened

---
 include/io/output.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/io/output.h b/include/io/output.h
index 2aada86..36c6855 100644
--- a/include/io/output.h
+++ b/include/io/output.h
@@ -122,6 +122,9 @@ int write_bin_COO(COO<T,IT> * A,
 
   if (fv == NULL || fr == NULL || fc == NULL) {
     fprintf(stderr, "Cannot open one of the files.\n");
+    if (fv != NULL) fclose(fv);
+    if (fr != NULL) fclose(fr);
+    if (fc != NULL) fclose(fc);
     return -1;
   }
 
-- 
2.43.0

