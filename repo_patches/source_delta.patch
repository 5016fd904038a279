From 1fbcf1fc9875655525b04f0df4016c6588f83822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:00 +0000
Subject: [PATCH 01/63] fix: scans write one element for an empty input and
 from threads without a share

exclusiveScan/inclusiveScan stored to dst[0] even for size 0 (heap overflow in
every masked product of matrices with zero rows), and in the parallel version
threads whose share is empty also stored to dst[start], racing with the owner
of that element.
---
 spgemm-blocks/scan.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spgemm-blocks/scan.h b/spgemm-blocks/scan.h
index f10fb7e..8eb5e54 100644
--- a/spgemm-blocks/scan.h
+++ b/spgemm-blocks/scan.h
@@ -25,6 +25,8 @@ void inclusiveScan(const T *src, size_t size, T *dst, int numThreads, T *partial
         offset += partialSums[i];
     }
 
+    if (start == end) { return; }
+
     dst[start] = offset + src[start];
     for (size_t i = start + 1; i < end; ++i) {
         dst[i] = dst[i - 1] + src[i];
@@ -33,6 +35,8 @@ void inclusiveScan(const T *src, size_t size, T *dst, int numThreads, T *partial
 
 template<class T>
 void inclusiveScan(const T *src, size_t size, T *dst, int numThreads) {
+    if (size == 0) { return; }
+
     // If the input is small or if numThreads is 1, use sequential code
     if (size < (1u << 17u) || numThreads == 1) {
         dst[0] = src[0];
@@ -71,6 +75,8 @@ void exclusiveScan(const T *src, size_t size, T *dst, int numThreads, T *partial
         offset += partialSums[i];
     }
 
+    if (start == end) { return; }
+
     dst[start] = offset;
     for (size_t i = start + 1; i < end; ++i) {
         dst[i] = dst[i - 1] + src[i - 1];
@@ -79,6 +85,8 @@ void exclusiveScan(const T *src, size_t size, T *dst, int numThreads, T *partial
 
 template<class T>
 void exclusiveScan(const T *src, size_t size, T *dst, int numThreads) {
+    if (size == 0) { return; }
+
     // If the input is small or if numThreads is 1, use sequential code
     if (size < (1u << 1u) || numThreads == 1) {
         dst[0] = 0;
-- 
2.43.0


From bde1ee97ba6494cd99c581a980ab9a3ed0dba31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:45 +0000
Subject: [PATCH 02/63] fix: complemented heap product aborts on rows whose
 mask is empty

With a complemented mask an empty mask row allows every product entry, so such
rows do reach symbolicRow/numericRow; the assertions copied from the plain
algorithm do not hold there.
---
 spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h b/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h
index 7496790..6a7ea74 100644
--- a/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h
+++ b/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h
@@ -298,7 +298,6 @@ public:
                      IT row, IT *rowNvals, IT &flops) {
         IT maskIdx = M.rowptr[row];
         const IT maskEnd = M.rowptr[row + 1];
-        assert(maskIdx != maskEnd);
 
         // Make initial heap for the row
         initHeap(A, B, row);
@@ -342,7 +341,6 @@ public:
                     MultiplyOperation multop, AddOperation addop, IT row, IT *&currColId, NT *&currValue, IT &flops) {
         IT maskIdx = M.rowptr[row];
         const IT maskEnd = M.rowptr[row + 1];
-        assert(maskIdx != maskEnd);
 
         initHeap(A, B, row);
 
-- 
2.43.0


From d44e59be7fc50b26fae2895cba4adf325f86dd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:27 +0000
Subject: [PATCH 03/63] fix: masked products assume the runtime delivers every
 requested thread

With OMP_THREAD_LIMIT, OMP_DYNAMIC or inside an active parallel region a team
can be smaller than num_threads asks for. Rows, partial sums and threadsNvals
of the missing threads were then never computed and C was garbage. Split the
work by the size of the actual team.
---
 spgemm-blocks/inner/MaskedInnerSpGEMM.h | 4 ++++
 spgemm-blocks/masked-spgemm-inner.h     | 4 ++++
 spgemm-blocks/masked-spgemm-poly.h      | 2 ++
 spgemm-blocks/masked-spgemm.h           | 4 ++++
 spgemm-blocks/scan.h                    | 6 ++++--
 5 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/spgemm-blocks/inner/MaskedInnerSpGEMM.h b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
index dbe5d31..a7180c6 100644
--- a/spgemm-blocks/inner/MaskedInnerSpGEMM.h
+++ b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
@@ -36,6 +36,8 @@ void MaskedSpGEMM1pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
 #pragma omp parallel num_threads(numThreads)
     {
         int thisThread = omp_get_thread_num();
+        // The runtime may deliver fewer threads than requested
+        const int numThreads = omp_get_num_threads();
 
         // Distribute work
         auto[rowBeginIdx, rowEndIdx] = distributeWork(work, cumulativeWork, A.rows, numThreads, thisThread);
@@ -128,6 +130,8 @@ void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
 #pragma omp parallel num_threads(numThreads)
     {
         int thisThread = omp_get_thread_num();
+        // The runtime may deliver fewer threads than requested
+        const int numThreads = omp_get_num_threads();
 
         // Distribute work
         auto[rowBeginIdx, rowEndIdx] = distributeWork(work, cumulativeWork, A.rows, numThreads, thisThread);
diff --git a/spgemm-blocks/masked-spgemm-inner.h b/spgemm-blocks/masked-spgemm-inner.h
index b334c36..37274c5 100644
--- a/spgemm-blocks/masked-spgemm-inner.h
+++ b/spgemm-blocks/masked-spgemm-inner.h
@@ -32,6 +32,8 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp parallel num_threads(numThreads)
     {
         int thisThread = omp_get_thread_num();
+        // The runtime may deliver fewer threads than requested
+        const int numThreads = omp_get_num_threads();
         RowAlg alg;
 
         // Distribute work
@@ -95,6 +97,8 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp parallel num_threads(numThreads)
     {
         int thisThread = omp_get_thread_num();
+        // The runtime may deliver fewer threads than requested
+        const int numThreads = omp_get_num_threads();
         RowAlg alg;
 
         // Distribute work
diff --git a/spgemm-blocks/masked-spgemm-poly.h b/spgemm-blocks/masked-spgemm-poly.h
index 75dcfb2..38075d5 100644
--- a/spgemm-blocks/masked-spgemm-poly.h
+++ b/spgemm-blocks/masked-spgemm-poly.h
@@ -24,6 +24,8 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp parallel num_threads(numThreads)
     {
         int thisThread = omp_get_thread_num();
+        // The runtime may deliver fewer threads than requested
+        const int numThreads = omp_get_num_threads();
 
         // Distribute work
         auto[rowBeginIdx, rowEndIdx] = distributeWork(flops, cumulativeWork, A.rows, numThreads, thisThread);
diff --git a/spgemm-blocks/masked-spgemm.h b/spgemm-blocks/masked-spgemm.h
index 58b8b37..9a0a9a1 100644
--- a/spgemm-blocks/masked-spgemm.h
+++ b/spgemm-blocks/masked-spgemm.h
@@ -40,6 +40,8 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp parallel num_threads(numThreads)
     {
         int thisThread = omp_get_thread_num();
+        // The runtime may deliver fewer threads than requested
+        const int numThreads = omp_get_num_threads();
 
         // Distribute work
         auto[rowBeginIdx, rowEndIdx] = distributeWork(flops, cumulativeWork, A.rows, numThreads, thisThread);
@@ -122,6 +124,8 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp parallel num_threads(numThreads)
     {
         int thisThread = omp_get_thread_num();
+        // The runtime may deliver fewer threads than requested
+        const int numThreads = omp_get_num_threads();
 
         // Distribute work
         auto[rowBeginIdx, rowEndIdx] = distributeWork(flops, cumulativeWork, A.rows, numThreads, thisThread);
diff --git a/spgemm-blocks/scan.h b/spgemm-blocks/scan.h
index 8eb5e54..a57b935 100644
--- a/spgemm-blocks/scan.h
+++ b/spgemm-blocks/scan.h
@@ -50,7 +50,8 @@ void inclusiveScan(const T *src, size_t size, T *dst, int numThreads) {
 
 #pragma omp parallel num_threads(numThreads) default(none) shared(src, size, dst, numThreads, partialSums)
     {
-        inclusiveScan(src, size, dst, numThreads, partialSums);
+        // The runtime may deliver fewer threads than requested
+        inclusiveScan(src, size, dst, omp_get_num_threads(), partialSums);
     };
 
     my_free(partialSums);
@@ -100,7 +101,8 @@ void exclusiveScan(const T *src, size_t size, T *dst, int numThreads) {
 
 #pragma omp parallel num_threads(numThreads) default(none) shared(src, size, dst, numThreads, partialSums)
     {
-        exclusiveScan(src, size, dst, numThreads, partialSums);
+        // The runtime may deliver fewer threads than requested
+        exclusiveScan(src, size, dst, omp_get_num_threads(), partialSums);
     };
 
     my_free(partialSums);
-- 
2.43.0


From beb7191a27b0ce09014d5c22ecc94925318227db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:58 +0000
Subject: [PATCH 04/63] fix: adaptive MaskedSpGEMM1p shares one scratch buffer
 between two accumulators and loses row sizes

---
 spgemm-blocks/masked-spgemm-poly.h | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/spgemm-blocks/masked-spgemm-poly.h b/spgemm-blocks/masked-spgemm-poly.h
index 38075d5..8443cf1 100644
--- a/spgemm-blocks/masked-spgemm-poly.h
+++ b/spgemm-blocks/masked-spgemm-poly.h
@@ -47,23 +47,12 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
         MCA<false, false>::Impl<IT, NT> mca{B.cols, maxRowSizeA, maxRowSizeM, maxRowFlops};
         auto[bufferSizeMCA, bufferAlignmentMCA] = mca.getMemoryRequirement();
 
-        size_t bufferSize = 0;
-//        bufferSize = std::max(bufferSize, bufferSizeHash);
-        bufferSize = std::max(bufferSize, bufferSizeSPA);
-//        bufferSize = std::max(bufferSize, bufferSizeHeap);
-        bufferSize = std::max(bufferSize, bufferSizeMCA);
+        // The accumulators are used alternately, so each of them needs its own buffer
+        auto bufferSPA = mallocAligned(bufferSizeSPA, bufferAlignmentSPA);
+        auto bufferMCA = mallocAligned(bufferSizeMCA, bufferAlignmentMCA);
 
-        size_t bufferAlignment = 1;
-//        bufferAlignment = std::lcm(bufferAlignment, bufferAlignmentHash);
-        bufferAlignment = std::lcm(bufferAlignment, bufferAlignmentSPA);
-//        bufferAlignment = std::lcm(bufferAlignment, bufferSizeHeap);
-        bufferAlignment = std::lcm(bufferAlignment, bufferAlignmentMCA);
-
-        auto buffer = mallocAligned(bufferSize, bufferAlignment);
-        size_t dirty = bufferSize;
-
-        spa.getNumericAccumulator().setBuffer(buffer, bufferSize, dirty);
-        mca.getNumericAccumulator().setBuffer(buffer, bufferSize, dirty);
+        spa.getNumericAccumulator().setBuffer(bufferSPA, bufferSizeSPA, bufferSizeSPA);
+        mca.getNumericAccumulator().setBuffer(bufferMCA, bufferSizeMCA, bufferSizeMCA);
 
         // Allocate temporary memory for C's column IDs and Values
         IT *colIdsLocal = my_malloc<IT>(upperBoundSizeC, false);
@@ -74,11 +63,13 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
         // Numeric phase
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (flopsPerRow[row] != 0) {
+                auto rowColIdBegin = currColId;
                 if ((M.rowptr[row + 1] - M.rowptr[row]) * (A.rowptr[row + 1] - A.rowptr[row]) < flopsPerRow[row]) {
                     mca.numericRow(A, B, M, multop, addop, row, currColId, currValue, flopsPerRow[row]);
                 } else {
                     spa.numericRow(A, B, M, multop, addop, row, currColId, currValue, flopsPerRow[row]);
                 }
+                rowNvals[row] = currColId - rowColIdBegin;
             } else {
                 rowNvals[row] = 0;
             }
@@ -96,7 +87,8 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
         copyValuesToC(C, rowBeginIdx, colIdsLocal, valuesLocal, threadsNvals[thisThread]);
 
         my_free(colIdsLocal, valuesLocal);
-        freeAligned(buffer);
+        freeAligned(bufferSPA);
+        freeAligned(bufferMCA);
     }
 
     my_free(flopsPerRow, cumulativeWork, rowNvals, threadsNvals);
-- 
2.43.0


From e2cf060e21268a78d9c99d2e00a78dc8cccdd8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:23 +0000
Subject: [PATCH 05/63] fix: two-phase inner products free C before the numeric
 phase reads A and M

---
 spgemm-blocks/inner/MaskedInnerSpGEMM.h | 23 +++++++++++++++++++----
 spgemm-blocks/masked-spgemm-inner.h     | 23 +++++++++++++++++++----
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/spgemm-blocks/inner/MaskedInnerSpGEMM.h b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
index a7180c6..2009805 100644
--- a/spgemm-blocks/inner/MaskedInnerSpGEMM.h
+++ b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
@@ -111,6 +111,8 @@ void MaskedSpGEMM1pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
 template<class IT, class NT, class MultiplyOperation, class AddOperation>
 void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C, const CSR<IT, NT> &M,
                     MultiplyOperation multop, AddOperation addop, unsigned numThreads = 0) {
+    CSR<IT, NT> R;
+
     // Calculate number of threads and init C
     setNumThreads(numThreads);
     verifyInputs(A, B, C, M);
@@ -176,14 +178,14 @@ void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
 #pragma omp barrier
 #pragma omp master
         {
-            initC(A, B, C, threadsNvals, numThreads);
+            initC(A, B, R, threadsNvals, numThreads);
         }
 #pragma omp barrier
-        setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
+        setRowOffsets(R, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
 
         // Numeric phase
-        IT *currColId = &C.colids[C.rowptr[rowBeginIdx]];
-        NT *currValue = &C.values[C.rowptr[rowBeginIdx]];
+        IT *currColId = &R.colids[R.rowptr[rowBeginIdx]];
+        NT *currValue = &R.values[R.rowptr[rowBeginIdx]];
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (workPerRow[row] == 0) {
                 rowNvals[row] = 0;
@@ -230,6 +232,19 @@ void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
     }
 
     my_free(workPerRow, cumulativeWork, rowNvals, threadsNvals);
+
+    // C may be A or M, so it is replaced only after the numeric phase
+    C.make_empty();
+    C.rows = R.rows;
+    C.cols = R.cols;
+    C.nnz = R.nnz;
+    C.rowptr = R.rowptr;
+    C.colids = R.colids;
+    C.values = R.values;
+
+    R.rows = 0;
+    R.cols = 0;
+    R.nnz = 0;
 }
 
 
diff --git a/spgemm-blocks/masked-spgemm-inner.h b/spgemm-blocks/masked-spgemm-inner.h
index 37274c5..d7e8148 100644
--- a/spgemm-blocks/masked-spgemm-inner.h
+++ b/spgemm-blocks/masked-spgemm-inner.h
@@ -78,6 +78,8 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
                     MultiplyOperation multop, AddOperation addop, unsigned numThreads = 0) {
     using RowAlg = RowAlgorithm<IT, NT, Complemented>;
 
+    CSR<IT, NT> R;
+
     // Calculate number of threads and init C
     setNumThreads(numThreads);
     verifyInputs(A, B, C, M);
@@ -121,14 +123,14 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp barrier
 #pragma omp master
         {
-            initC(A, B, C, threadsNvals, numThreads);
+            initC(A, B, R, threadsNvals, numThreads);
         }
 #pragma omp barrier
-        setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
+        setRowOffsets(R, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
 
         // Numeric phase
-        IT *currColId = &C.colids[C.rowptr[rowBeginIdx]];
-        NT *currValue = &C.values[C.rowptr[rowBeginIdx]];
+        IT *currColId = &R.colids[R.rowptr[rowBeginIdx]];
+        NT *currValue = &R.values[R.rowptr[rowBeginIdx]];
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (workPerRow[row] == 0) {
                 rowNvals[row] = 0;
@@ -142,6 +144,19 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
     }
 
     my_free(workPerRow, cumulativeWork, rowNvals, threadsNvals);
+
+    // C may be A or M, so it is replaced only after the numeric phase
+    C.make_empty();
+    C.rows = R.rows;
+    C.cols = R.cols;
+    C.nnz = R.nnz;
+    C.rowptr = R.rowptr;
+    C.colids = R.colids;
+    C.values = R.values;
+
+    R.rows = 0;
+    R.cols = 0;
+    R.nnz = 0;
 }
 
 #endif //MASKED_SPGEMM_MASKED_SPGEMM_INNER_H
-- 
2.43.0


From 62008ee0505a2c53f94f7ac80c5798fd187fe03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:13 +0000
Subject: [PATCH 06/63] fix: parallel scan reads one element past the end of
 its input

Callers ask for rows + 1 outputs of a rows-element array; only the sequential path respected that.
---
 utility.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utility.h b/utility.h
index 1a6df5f..6624b25 100644
--- a/utility.h
+++ b/utility.h
@@ -196,8 +196,9 @@ template <typename T> void scan(T *in, T *out, T N) {
       for (T i = start; i < end - 1; ++i) {
         out[i + 1] = out[i] + in[i];
       }
-      // calculate offset in every thread
-      partial_sum[tid] = out[end - 1] + in[end - 1];
+      // calculate offset in every thread (the last sum is not used, and callers
+      // that ask for N outputs only provide N - 1 inputs)
+      if (tid < tnum - 1) { partial_sum[tid] = out[end - 1] + in[end - 1]; }
 #pragma omp barrier
 
       T offset = 0;
-- 
2.43.0


From 1deef80476f7e0c3b8ac096438426a5dea4d8439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:25 +0000
Subject: [PATCH 07/63] fix: BitMap::get_next_bit truncates positions beyond
 2^32

The mask that rounds the position down to its word was 32 bits wide.
---
 BitMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BitMap.h b/BitMap.h
index 1ded809..901d457 100644
--- a/BitMap.h
+++ b/BitMap.h
@@ -117,7 +117,7 @@ class BitMap {
       temp = 0;
     }
     if (!temp) {
-      next = (next & 0xffffffc0);
+      next = (next & ~static_cast<uint64_t>(63));
       while (!temp) {
         it++;
         if (it >= end)
-- 
2.43.0


From 5d32d34a359ae729e574f1d3cb875c3772d06c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:03 +0000
Subject: [PATCH 08/63] fix: MCA row algorithms read A's column ids instead of
 B's, and overflow on empty or long mask rows

The first key of a row of B was taken from A.colids; a row without mask
entries was matched against the next row's mask, and the thread-local result
was sized for the products although rows are accumulated at mask positions.
---
 heap_mult_generic.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/heap_mult_generic.h b/heap_mult_generic.h
index 8a0a010..7c76a7b 100644
--- a/heap_mult_generic.h
+++ b/heap_mult_generic.h
@@ -478,11 +478,8 @@ struct MCABase {
     template<class IT, class NT>
     static IT estimateResultSize(IT rowBeginIdx, IT rowEndIdx, IT *maxnnzc,
                                  const CSR<IT, NT> &A, const CSR<IT, NT> &B, const CSR<IT, NT> &M) {
-        IT size = 0;
-        for (IT row = rowBeginIdx; row < rowEndIdx; row++) {
-            size += std::min(maxnnzc[row], M.rowptr[row + 1] - M.rowptr[row]);
-        }
-        return size;
+        // A row is accumulated in place, with one position for each entry of its mask
+        return M.rowptr[rowEndIdx] - M.rowptr[rowBeginIdx];
     }
 
     template<class IT, class NT>
@@ -513,6 +510,8 @@ struct MCA_v1 : MCABase {
         const IT maskEnd = M.rowptr[i + 1];
         const IT maskSize = maskEnd - maskBegin;
 
+        if (maskSize == 0) { return; }
+
         prevColIdC++;
         prevValueC++;
 
@@ -522,9 +521,8 @@ struct MCA_v1 : MCABase {
         for (IT j = A.rowptr[i]; j < A.rowptr[i + 1]; j++) {
             const IT inner = A.colids[j];
             IT loc = B.rowptr[inner];
-            IT key = A.colids[loc];
-
             if (loc == B.rowptr[inner + 1]) { continue; }
+            IT key = B.colids[loc];
 
             IT maskIdx = maskBegin;
 
@@ -584,6 +582,8 @@ struct MCA_v2 : MCABase {
         const IT maskEnd = M.rowptr[i + 1];
         const IT maskSize = maskEnd - maskBegin;
 
+        if (maskSize == 0) { return; }
+
         // Since prev***C point to the previous element, increment them
         prevColIdC++;
         prevValueC++;
@@ -594,9 +594,8 @@ struct MCA_v2 : MCABase {
         for (IT j = A.rowptr[i]; j < A.rowptr[i + 1]; j++) {
             const IT inner = A.colids[j];
             IT loc = B.rowptr[inner];
-            IT key = A.colids[loc];
-
             if (loc == B.rowptr[inner + 1]) { continue; }
+            IT key = B.colids[loc];
 
             // Find the intersection between the mask's row and the A's row
             for (IT maskIdx = maskBegin; maskIdx < maskEnd; maskIdx++) {
@@ -655,6 +654,8 @@ struct MCA_v3 : MCABase {
         const auto maskEnd = &M.colids[M.rowptr[i + 1]];
         const auto maskSize = maskEnd - maskBegin;
 
+        if (maskSize == 0) { return; }
+
         prevColIdC++;
         prevValueC++;
 
-- 
2.43.0


From 02dc15066380780e0c6282847670880cea08f9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:33 +0000
Subject: [PATCH 09/63] fix: heap kernels write out of bounds without rows or
 columns, leak and keep the previous result

rowStart[0]/colStart[0] were written into zero-length arrays, threadsNvals was
never freed, the CSC version released C only when it was already empty, and
HeapSpGEMMImpl relied on getting all requested threads.
---
 heap_mult.h         | 9 +++------
 heap_mult_generic.h | 7 +++++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/heap_mult.h b/heap_mult.h
index a4ca9ee..f7a1ef0 100644
--- a/heap_mult.h
+++ b/heap_mult.h
@@ -59,8 +59,8 @@ void HeapSpGEMM(const CSC<IT,NT> & A, const CSC<IT,NT> & B, CSC<IT,NT> & C, Mult
     IT flopsPerThread = flops/numThreads; // amount of work that will be assigned to each thread
 
     IT *colPerThread = my_malloc<IT>(numThreads + 1); //thread i will process columns from colPerThread[i] to colPerThread[i+1]-1
-    IT *colStart = my_malloc<IT>(B.cols); //start index in the global array for storing ith column of C
-    IT *colEnd = my_malloc<IT>(B.cols); //end index in the global array for storing ith column of C
+    IT *colStart = my_malloc<IT>(B.cols + 1); //start index in the global array for storing ith column of C
+    IT *colEnd = my_malloc<IT>(B.cols + 1); //end index in the global array for storing ith column of C
 
     colStart[0] = 0;
     colEnd[0] = 0;
@@ -85,7 +85,6 @@ void HeapSpGEMM(const CSC<IT,NT> & A, const CSC<IT,NT> & B, CSC<IT,NT> & C, Mult
     colPerThread[numThreads] = B.cols;
 
     // *************** Creating global space to store result, used by all threads *********************
-    IT size = colEnd[B.cols-1] + maxnnzc[B.cols-1];
     IT **LocalRowIdsofC = my_malloc<IT*>(numThreads);
     NT **LocalValuesofC = my_malloc<NT*>(numThreads);
 #pragma omp parallel
@@ -174,9 +173,7 @@ void HeapSpGEMM(const CSC<IT,NT> & A, const CSC<IT,NT> & B, CSC<IT,NT> & C, Mult
 
     my_free<IT>(threadHeapSize);
 
-    if (C.isEmpty()) {
-        C.make_empty();
-    }
+    C.make_empty();
 
     // ************************ Copy output to C *************************************
     C.rows = A.rows;
diff --git a/heap_mult_generic.h b/heap_mult_generic.h
index 7c76a7b..714353d 100644
--- a/heap_mult_generic.h
+++ b/heap_mult_generic.h
@@ -728,7 +728,7 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
         numThreads = omp_get_num_threads();
     }
 
-    if (!C.isEmpty()) { C.make_empty(); }
+    C.make_empty();
     C.rows = A.rows;
     C.cols = B.cols;
 
@@ -738,7 +738,7 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 
     IT flopsPerThread = flops / numThreads; // amount of work that will be assigned to each thread
 
-    IT *rowStart = my_malloc<IT>(A.rows); //start index in the global array for storing ith column of C
+    IT *rowStart = my_malloc<IT>(A.rows + 1); //start index in the global array for storing ith column of C
     IT *rowNvals = my_malloc<IT>(A.rows); // number of nonzeros in each each column in C
 
     rowStart[0] = 0;
@@ -753,6 +753,8 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp parallel num_threads(numThreads)
     {
         int thisThread = omp_get_thread_num();
+        // The runtime may deliver fewer threads than requested
+        const int numThreads = omp_get_num_threads();
 
         // @formatter:off
         IT rowBegin = thisThread != 0 ? (lower_bound(rowStart, rowStart + A.rows, flopsPerThread * thisThread)) - rowStart : 0;
@@ -810,6 +812,7 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
     my_free<IT>(maxnnzc);
     my_free<IT>(rowStart);
     my_free<IT>(rowNvals);
+    my_free<IT>(threadsNvals);
 }
 
 template<class RowAlgorithm, typename IT, typename NT, typename MultiplyOperation, typename AddOperation>
-- 
2.43.0


From 846c22ce191f64bccb1710ce1adec5c490e5f546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:50 +0000
Subject: [PATCH 10/63] fix: BIN refuses matrices without rows

A product with zero rows is an empty product.
---
 BIN.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/BIN.h b/BIN.h
index 0c3b376..442c2f0 100644
--- a/BIN.h
+++ b/BIN.h
@@ -21,7 +21,6 @@ public:
     }
     BIN(IT rows): total_intprod(0), max_intprod(0), max_nz(0), thread_num(omp_get_max_threads()), min_ht_size(8)
     {
-        assert(rows != 0);
         row_nz = my_malloc<IT>(rows);
         rows_offset = my_malloc<IT>(thread_num + 1);
         bin_id = my_malloc<char>(rows);
@@ -30,7 +29,6 @@ public:
     }
     BIN(IT rows, IT ht_size): total_intprod(0), max_intprod(0), max_nz(0), thread_num(omp_get_max_threads()), min_ht_size(ht_size)
     {
-        assert(rows != 0);
         row_nz = my_malloc<IT>(rows);
         rows_offset = my_malloc<IT>(thread_num + 1);
         bin_id = my_malloc<char>(rows);
@@ -39,7 +37,6 @@ public:
     }
     BIN(IT rows, IT ht_size, int threadCount): total_intprod(0), max_intprod(0), max_nz(0), thread_num(threadCount), min_ht_size(ht_size)
     {
-        assert(rows != 0);
         row_nz = my_malloc<IT>(rows);
         rows_offset = my_malloc<IT>(thread_num + 1);
         bin_id = my_malloc<char>(rows);
-- 
2.43.0


From 191cee64eb02e07622778013f5cd3b6f3488d801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:21 +0000
Subject: [PATCH 11/63] fix: innerSpGEMM_nohash injects 0 into the sums,
 indexes B's columns by row and adds to the old nnz of the result

The BIN it filled was never used and read B.colptr with row indices.
---
 inner_mult.h | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/inner_mult.h b/inner_mult.h
index 54f5664..1ae30bb 100644
--- a/inner_mult.h
+++ b/inner_mult.h
@@ -65,17 +65,6 @@ innerSpGEMM_nohash(const CSR<IT,NT> & A, const CSC<IT,NT> & B, CSR<IT,NT> & C_fi
     for (IT i = 0; i < C.rows; ++i)
         C.rowptr[i] = M.rowptr[i];
     
-    for (IT i = 0; i < C.nnz; ++i) {
-        C.colids[i] = M.colids[i]; // unnecessary
-        C.values[i] = 0;
-    }
-    
-    BIN<IT, NT> bin(A.rows, IMB_PWMIN, threadCount);
-
-    /* Set max bin */
-    // Double check, changed 3rd param to colptr
-    bin.set_max_bin(A.rowptr, A.colids, B.colptr, C.rows, C.cols);
-
     IT numThreads;
     #pragma omp parallel num_threads(threadCount)
     {
@@ -92,8 +81,6 @@ innerSpGEMM_nohash(const CSR<IT,NT> & A, const CSC<IT,NT> & B, CSR<IT,NT> & C_fi
         IT tid;
         
         tid = omp_get_thread_num();
-        // start_row  = bin.rows_offset[tid];
-        // end_row = bin.rows_offset[tid + 1];
         start_row = rowPerThread * tid;
         end_row = min(rowPerThread * (tid+1), M.rows);
 
@@ -122,7 +109,8 @@ innerSpGEMM_nohash(const CSR<IT,NT> & A, const CSC<IT,NT> & B, CSR<IT,NT> & C_fi
                     else if(A.colids[nnz_r] > B.rowids[nnz_c])
                         nnz_c++;
                     else { //A.colids[nnz_r] == B.rowids[nnz_c];
-                        t_val = addop(t_val, multop(A.values[nnz_r], B.values[nnz_c]));
+                        NT prod = multop(A.values[nnz_r], B.values[nnz_c]);
+                        t_val = active ? addop(t_val, prod) : prod;
                         nnz_r++, 
                         nnz_c++;
                         active = true;
@@ -142,6 +130,8 @@ innerSpGEMM_nohash(const CSR<IT,NT> & A, const CSC<IT,NT> & B, CSR<IT,NT> & C_fi
 
     //shrink C
 
+    C_final.make_empty();
+
     //* sequentially create global rowptr for final shrinked C*
     for (IT i = 0; i < C.rows; ++i)
          C_final.nnz += rownnz[i];
-- 
2.43.0


From c6b3144560d8b6755c7b738aac4729b73b38b037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:37 +0000
Subject: [PATCH 12/63] fix: hash and SPA kernels leak the previous result

C's arrays were overwritten by new allocations.
---
 hash_mult_hw.h   | 1 +
 mask_hash_mult.h | 2 ++
 spa_mult.h       | 1 +
 3 files changed, 4 insertions(+)

diff --git a/hash_mult_hw.h b/hash_mult_hw.h
index f541d22..e473788 100644
--- a/hash_mult_hw.h
+++ b/hash_mult_hw.h
@@ -185,6 +185,7 @@ void HashSpGEMM(const CSR<IT, NT> &a, const CSR<IT, NT> &b, CSR<IT, NT> &c, Mult
 {
     BIN<IT, NT> bin(a.rows, IMB_PWMIN, threadCount);
 
+    c.make_empty();
     c.rows = a.rows;
     c.cols = b.cols;
     c.zerobased = true;
diff --git a/mask_hash_mult.h b/mask_hash_mult.h
index 773aa75..02559b1 100644
--- a/mask_hash_mult.h
+++ b/mask_hash_mult.h
@@ -41,6 +41,7 @@ mxm_hash_mask
     unsigned threadCount
 )
 {
+	C.make_empty();
 	C.rows		   = A.rows;
     C.cols		   = B.cols;
     C.zerobased	   = true;
@@ -174,6 +175,7 @@ mxm_hash_mask_wobin
     unsigned threadCount
 )
 {
+	C.make_empty();
 	C.rows		   = A.rows;
     C.cols		   = B.cols;
     C.zerobased	   = true;
diff --git a/spa_mult.h b/spa_mult.h
index af43c55..bc8eb5b 100644
--- a/spa_mult.h
+++ b/spa_mult.h
@@ -12,6 +12,7 @@ template <typename IT, typename NT, typename MultiplyOperation, typename AddOper
 void MaskedSPASpGEMM(const CSR<IT, NT> & A, const CSR<IT, NT> & B, CSR<IT, NT> & C, const CSR<IT, NT> & Mask,
                MultiplyOperation multop, AddOperation addop, unsigned threadCount)
 {
+    C.make_empty();
     C.rows = A.rows;
     C.cols = B.cols;
     C.zerobased = true;
-- 
2.43.0


From 4075748e381bdced179107c3ab25008e60925fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:38 +0000
Subject: [PATCH 13/63] fix: seq_scan of zero elements writes, and loops
 through memory for unsigned counts

N - 1 wraps around for N == 0.
---
 utility.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utility.h b/utility.h
index 6624b25..6329ec2 100644
--- a/utility.h
+++ b/utility.h
@@ -169,6 +169,8 @@ inline void my_free(T *a, Ts *...as) {
 
 // Prefix sum (Sequential)
 template <typename T> void seq_scan(T *in, T *out, T N) {
+  if (N == 0)
+    return;
   out[0] = 0;
   for (T i = 0; i < N - 1; ++i) {
     out[i + 1] = out[i] + in[i];
-- 
2.43.0


From 691b48f2ae2c5286e7e5f80a188e87e5fc172983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:13 +0000
Subject: [PATCH 14/63] fix: OuterSpGEMM leaks its buffers and the previous
 result, and mixes operator new with free; outer_mult2 splits columns by the
 row count

Arrays that my_free releases are now allocated by my_malloc, and the work split of
outer_mult2.h iterates over the columns of A it distributes.
---
 outer_mult.h  | 21 +++++++++++----------
 outer_mult2.h | 36 ++++++++++++++++++++++--------------
 2 files changed, 33 insertions(+), 24 deletions(-)

diff --git a/outer_mult.h b/outer_mult.h
index 2b013c6..10327fb 100644
--- a/outer_mult.h
+++ b/outer_mult.h
@@ -235,7 +235,7 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     IT *nnz_per_row_blocker = my_malloc<IT>(num_blockers);
 	do_static_symbolic(A, B, 0, A.cols, nrows_per_blocker, num_blockers, flops_by_row_blockers, total_flop);
     for (uint16_t blocker_id=0; blocker_id<num_blockers; ++blocker_id)
-        global_blockers[blocker_id] = static_cast<TripleNode*>(::operator new(SIZE * flops_by_row_blockers[blocker_id]));
+        global_blockers[blocker_id] = my_malloc<TripleNode>(flops_by_row_blockers[blocker_id], false);
     IT max_flops_in_row_blockers = *std::max_element(flops_by_row_blockers, flops_by_row_blockers + num_blockers);
     // IT min_flops_in_row_blockers = *std::min_element(flops_by_row_blockers, flops_by_row_blockers + num_blockers);
     // uint64_t avg_flops_in_row_blockers = 0;
@@ -249,9 +249,9 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     {
         uint16_t thread_id = omp_get_thread_num();
         TripleNode *begin_local_blockers, *cur_local_blockers, *end_local_blockers, *cur_global_blockers;
-        local_blockers[thread_id] = static_cast<TripleNode*>(::operator new(SIZE * num_blockers * block_width));
+        local_blockers[thread_id] = my_malloc<TripleNode>(num_blockers * block_width, false);
         local_blocker_counters[thread_id] = my_malloc<IT>(num_blockers);
-        sorting_buffer[thread_id] = static_cast<TripleNode*>(::operator new(SIZE * max_flops_in_row_blockers));
+        sorting_buffer[thread_id] = my_malloc<TripleNode>(max_flops_in_row_blockers, false);
 // computing phase
 #pragma omp for nowait
         for (IT idx = startIdx; idx < endIdx; ++idx)
@@ -337,16 +337,13 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     scan(nnz_per_row_blocker, cumulative_row_indices, (IT)(num_blockers) + 1);
     IT total_nnz = cumulative_row_indices[num_blockers];
 
-    if (C.isEmpty())
-    {
-        C.make_empty();
-    }
+    C.make_empty();
     C.rows = A.rows;
     C.cols = B.cols;
 
-    C.colids = static_cast<IT*>(::operator new(sizeof(IT[total_nnz])));
-    C.rowptr = static_cast<IT*>(::operator new(sizeof(IT[C.rows+1])));
-    C.values = static_cast<NT*>(::operator new(sizeof(NT[total_nnz])));
+    C.colids = my_malloc<IT>(total_nnz, false);
+    C.rowptr = my_malloc<IT>(C.rows + 1, false);
+    C.values = my_malloc<NT>(total_nnz, false);
 
     C.rowptr[0] = 0;
 
@@ -371,6 +368,7 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     C.nnz = total_nnz;
 
     my_free<IT>(flops_by_row_blockers);
+    my_free<IT>(flops_by_rows);
     my_free<IT>(nnz_by_row);
     my_free<IT>(nnz_per_row_blocker);
     my_free<IT>(cumulative_row_indices);
@@ -384,9 +382,12 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     {
         my_free<TripleNode>(local_blockers[thread_id]);
         my_free<IT>(local_blocker_counters[thread_id]);
+        my_free<TripleNode>(sorting_buffer[thread_id]);
     }
     my_free<TripleNode*>(local_blockers);
     my_free<IT*>(local_blocker_counters);
+    my_free<TripleNode*>(sorting_buffer);
+    my_free<IT>(global_blocker_counters);
 }
 
 template <typename IT, typename NT>
diff --git a/outer_mult2.h b/outer_mult2.h
index d4aec84..c147ef2 100644
--- a/outer_mult2.h
+++ b/outer_mult2.h
@@ -54,7 +54,7 @@ void do_symbolic(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx, IT end
 
     IT cur_blocker_id = 0;
     IT cur_thread_id = 0;
-    IT *flops_by_iters = my_malloc<IT>(A.rows);
+    IT *flops_by_iters = my_malloc<IT>(A.cols);
 
 // #pragma omp parallel
 {
@@ -83,7 +83,6 @@ void do_symbolic(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx, IT end
     for (IT i=0; i<A.rows; ++i)
     {
         cur_blocker_volumn += flops_by_rows[i];
-        cur_thread_volumn += flops_by_iters[i];
         flops_by_row_blockers[cur_blocker_id] = cur_blocker_volumn;
         blocker_row_count[cur_blocker_id] ++;
         rows_to_blockers[i] = cur_blocker_id;
@@ -92,6 +91,10 @@ void do_symbolic(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx, IT end
             cur_blocker_id ++;
             cur_blocker_volumn = 0;
         }
+    }
+    for (IT i=0; i<A.cols; ++i)
+    {
+        cur_thread_volumn += flops_by_iters[i];
         if(cur_thread_volumn > avg_thread_volumn)
         {
             thread_rows_offset[cur_thread_id] = i;
@@ -99,7 +102,9 @@ void do_symbolic(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx, IT end
             cur_thread_volumn = 0;
         }
     }
-    thread_rows_offset[cur_thread_id] = A.rows;
+    thread_rows_offset[cur_thread_id] = A.cols;
+    my_free<IT>(flops_by_iters);
+    my_free<IT>(blocker_row_count);
     // for (IT i = 0 ; i< num_blockers; ++i)
     //     cout << "BlockerId = " << i << " nrows = " << blocker_row_count[i] << endl;
 }
@@ -223,7 +228,7 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     IT* flops_by_rows = my_malloc<IT>(A.rows);
     IT* nnz_by_row = my_malloc<IT>(A.rows);
     IT *thread_rows_offset = my_malloc<IT>(nthreads+1);
-    rows_to_blockers = static_cast<IT*>(::operator new(sizeof(IT) * A.rows));
+    rows_to_blockers = my_malloc<IT>(A.rows + 1, false);
     do_symbolic(A, B, 0, A.cols, num_blockers, flops_by_rows, rows_to_blockers, thread_rows_offset, flops_by_row_blockers, total_flop, nthreads);
 
     IT *global_blocker_counters = my_malloc<IT>(num_blockers);
@@ -235,7 +240,7 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
 
 #pragma omp parallel for
     for (uint16_t blocker_id=0; blocker_id<num_blockers; ++blocker_id)
-        global_blockers[blocker_id] = static_cast<TripleNode*>(::operator new(SIZE * flops_by_row_blockers[blocker_id]));
+        global_blockers[blocker_id] = my_malloc<TripleNode>(flops_by_row_blockers[blocker_id], false);
 
     IT max_flops_in_row_blockers = *std::max_element(flops_by_row_blockers, flops_by_row_blockers + num_blockers);
     // IT min_flops_in_row_blockers = *std::min_element(flops_by_row_blockers, flops_by_row_blockers + num_blockers);
@@ -248,13 +253,13 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     // cout << "avg_flops_in_row_blockers = " << avg_flops_in_row_blockers / num_blockers << "   max_flops_in_row_blockers = " << max_flops_in_row_blockers << "    min_flops_in_row_blockers = " << min_flops_in_row_blockers << endl;
 #pragma omp parallel for
     for (uint16_t thread_id=0; thread_id<nthreads; ++thread_id)
-        sorting_buffer[thread_id] = static_cast<TripleNode*>(::operator new(SIZE * max_flops_in_row_blockers));
+        sorting_buffer[thread_id] = my_malloc<TripleNode>(max_flops_in_row_blockers, false);
 
 #pragma omp parallel
     {
         uint16_t thread_id = omp_get_thread_num();
         TripleNode *begin_local_blockers, *cur_local_blockers, *end_local_blockers, *cur_global_blockers;
-        local_blockers[thread_id] = static_cast<TripleNode*>(::operator new(SIZE * num_blockers * block_width));
+        local_blockers[thread_id] = my_malloc<TripleNode>(num_blockers * block_width, false);
         local_blocker_counters[thread_id] = my_malloc<IT>(num_blockers);
         IT first_row = thread_rows_offset[thread_id];
         IT last_row = thread_rows_offset[thread_id+1];
@@ -337,16 +342,13 @@ double t1 = omp_get_wtime();
     scan(nnz_per_row_blocker, cumulative_row_indices, (IT)(num_blockers) + 1);
     IT total_nnz = cumulative_row_indices[num_blockers];
 
-    if (C.isEmpty())
-    {
-        C.make_empty();
-    }
+    C.make_empty();
     C.rows = A.rows;
     C.cols = B.cols;
 
-    C.colids = static_cast<IT*>(::operator new(sizeof(IT[total_nnz])));
-    C.rowptr = static_cast<IT*>(::operator new(sizeof(IT[C.rows+1])));
-    C.values = static_cast<NT*>(::operator new(sizeof(NT[total_nnz])));
+    C.colids = my_malloc<IT>(total_nnz, false);
+    C.rowptr = my_malloc<IT>(C.rows + 1, false);
+    C.values = my_malloc<NT>(total_nnz, false);
 
     C.rowptr[0] = 0;
 
@@ -372,6 +374,7 @@ double t1 = omp_get_wtime();
     C.nnz = total_nnz;
 
     my_free<IT>(flops_by_row_blockers);
+    my_free<IT>(flops_by_rows);
     my_free<IT>(nnz_by_row);
     my_free<IT>(nnz_per_row_blocker);
     my_free<IT>(cumulative_row_indices);
@@ -384,9 +387,14 @@ double t1 = omp_get_wtime();
     {
         my_free<TripleNode>(local_blockers[thread_id]);
         my_free<IT>(local_blocker_counters[thread_id]);
+        my_free<TripleNode>(sorting_buffer[thread_id]);
     }
     my_free<TripleNode*>(local_blockers);
     my_free<IT*>(local_blocker_counters);
+    my_free<TripleNode*>(sorting_buffer);
+    my_free<IT>(global_blocker_counters);
+    my_free<IT>(thread_rows_offset);
+    my_free<IT>(rows_to_blockers);
 }
 
 
-- 
2.43.0


From ac4c9f3467966ad8eefc05f5884824855a48ace9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:27 +0000
Subject: [PATCH 15/63] fix: OuterSpGEMM sorts by a key in which rows or
 columns overlap for large matrices

The 32-bit key has 12 (16) bits for the row and 20 (16) for the column; use the
existing 64-bit key when they do not fit.
---
 outer_mult.h  | 12 +++++++++---
 outer_mult2.h | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/outer_mult.h b/outer_mult.h
index 10327fb..78f290d 100644
--- a/outer_mult.h
+++ b/outer_mult.h
@@ -166,9 +166,12 @@ inline bool isTupleEqual (tuple<IT, IT, NT> t1, tuple<IT, IT, NT> t2)
 }
 
 template <typename IT, typename NT>
-inline void doRadixSort(tuple<IT, IT, NT>* begin, tuple<IT, IT, NT>* end, tuple<IT, IT, NT>* buffer)
+inline void doRadixSort(tuple<IT, IT, NT>* begin, tuple<IT, IT, NT>* end, tuple<IT, IT, NT>* buffer, bool wide_keys)
 {
-    radix_sort(begin, end, buffer, ExtractKey2());
+    if (wide_keys)
+        radix_sort(begin, end, buffer, ExtractKey());
+    else
+        radix_sort(begin, end, buffer, ExtractKey2());
     // sort(begin, end, compareTuple<IT, NT>);
 }
 
@@ -221,6 +224,9 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     nrows_of_A = A.rows;
 	nrows_per_blocker = A.rows <= num_blockers * 64 ? 64 : (A.rows + num_blockers - 1) / num_blockers;
 
+    // row and column do not always fit into the 32-bit sorting key
+    const bool wide_keys = nrows_per_blocker > (1u << 12) || B.cols > (1 << 20);
+
     IT total_flop = 0;
 
     IT *flops_by_row_blockers = my_malloc<IT>(num_blockers);
@@ -327,7 +333,7 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
             // uint16_t my_blocker_id = scheduling_order[row_blocker_id].second;
             doRadixSort(global_blockers[row_blocker_id],
                         global_blockers[row_blocker_id] + global_blocker_counters[row_blocker_id],
-                        sorting_buffer[thread_id]);
+                        sorting_buffer[thread_id], wide_keys);
             IT after = doMerge(global_blockers[row_blocker_id], global_blocker_counters[row_blocker_id]);
             nnz_per_row_blocker[row_blocker_id] += after;
         }
diff --git a/outer_mult2.h b/outer_mult2.h
index c147ef2..b868a88 100644
--- a/outer_mult2.h
+++ b/outer_mult2.h
@@ -166,9 +166,12 @@ inline bool isTupleEqual (tuple<IT, IT, NT> t1, tuple<IT, IT, NT> t2)
 }
 
 template <typename IT, typename NT>
-inline void doRadixSort(tuple<IT, IT, NT>* begin, tuple<IT, IT, NT>* end, tuple<IT, IT, NT>* buffer)
+inline void doRadixSort(tuple<IT, IT, NT>* begin, tuple<IT, IT, NT>* end, tuple<IT, IT, NT>* buffer, bool wide_keys)
 {
-    radix_sort(begin, end, buffer, ExtractKey2());
+    if (wide_keys)
+        radix_sort(begin, end, buffer, ExtractKey());
+    else
+        radix_sort(begin, end, buffer, ExtractKey2());
     // gfx::timsort(begin, end, compareTuple<IT, NT>);
     // sort(begin, end, compareTuple<IT, NT>);
 }
@@ -222,6 +225,9 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     omp_set_dynamic(0);
     ncols_of_A = A.cols;
 
+    // row and column do not always fit into the 32-bit sorting key
+    const bool wide_keys = A.rows > (1 << 16) || B.cols > (1 << 16);
+
     IT total_flop = 0;
 
     flops_by_row_blockers = my_malloc<IT>(num_blockers);
@@ -332,7 +338,7 @@ double t1 = omp_get_wtime();
         {
             doRadixSort(global_blockers[row_blocker_id],
                         global_blockers[row_blocker_id] + global_blocker_counters[row_blocker_id],
-                        sorting_buffer[thread_id]);
+                        sorting_buffer[thread_id], wide_keys);
             IT after = doMerge(global_blockers[row_blocker_id], global_blocker_counters[row_blocker_id]);
             nnz_per_row_blocker[row_blocker_id] += after;
         }
-- 
2.43.0


From dc90f668f5683b31c4ca1e8b31263c621405fcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:46 +0000
Subject: [PATCH 16/63] fix: innerSpGEMM_nohash leaks its scratch matrix when
 the mask has no entries

The scratch matrix is allocated with the mask's sizes, but CSR::make_empty() only releases the arrays of a matrix that has entries (and rows), so for an empty mask the arrays were lost.
---
 inner_mult.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/inner_mult.h b/inner_mult.h
index 1ae30bb..37a99d4 100644
--- a/inner_mult.h
+++ b/inner_mult.h
@@ -169,7 +169,16 @@ innerSpGEMM_nohash(const CSR<IT,NT> & A, const CSC<IT,NT> & B, CSR<IT,NT> & C_fi
     //     cout << endl;
     // }
     // cout << endl;
-    C.make_empty();
+    // C.make_empty() would keep the arrays of a matrix without entries or rows
+    my_free<IT>(C.rowptr);
+    my_free<IT>(C.colids);
+    my_free<NT>(C.values);
+    C.rowptr = NULL;
+    C.colids = NULL;
+    C.values = NULL;
+    C.rows = 0;
+    C.cols = 0;
+    C.nnz = 0;
 }
 
 
-- 
2.43.0


From f327f503ac6cad22a4268dd68eaf5fe875d05309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:01 +0000
Subject: [PATCH 17/63] fix: CSR assignment copies the row pointers whenever
 there are rows

operator= allocated and copied rowptr only when the source had columns, so assigning a
matrix with rows but no columns left a dangling rowptr that was freed again later.
---
 CSR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CSR.h b/CSR.h
index a2285b9..0e1a593 100644
--- a/CSR.h
+++ b/CSR.h
@@ -154,7 +154,7 @@ CSR<IT, NT> &CSR<IT, NT>::operator=(const CSR<IT, NT> &rhs) {
       copy(rhs.values, rhs.values + nnz, values);
       copy(rhs.colids, rhs.colids + nnz, colids);
     }
-    if (rhs.cols > 0) {
+    if (rhs.rows > 0) {
       rowptr = my_malloc<IT>(rows + 1);
       copy(rhs.rowptr, rhs.rowptr + rows + 1, rowptr);
     }
-- 
2.43.0


From b29d20f1926e880ead3ff108006020d88a47d9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:24 +0000
Subject: [PATCH 18/63] fix: sumall accumulates in the value type

The sum was accumulated in the index type, which truncates every partial sum of floating
point values and overflows for narrow index types.
---
 CSR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CSR.h b/CSR.h
index 0e1a593..f7d3b4c 100644
--- a/CSR.h
+++ b/CSR.h
@@ -90,7 +90,7 @@ public:
 
   NT sumall()
   {
-      IT sum = 0;
+      NT sum = 0;
       #pragma omp parallel for reduction (+:sum)
       for(IT i=0; i<nnz; ++i )
       {
-- 
2.43.0


From 261ff3b92cee3db91b38060b923541847183cdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 19/63] fix: matrices from a graph without edges

The CSR and CSC constructors from a GTgraph graph read the first edge even when there is none.
---
 CSC.h | 12 +++++++-----
 CSR.h | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/CSC.h b/CSC.h
index 466ae0f..f6aeb2e 100644
--- a/CSC.h
+++ b/CSC.h
@@ -168,8 +168,9 @@ CSC<IT, NT>::CSC(graph &G) : nnz(G.m), rows(G.n), cols(G.n) {
 
   vector<Triple<IT, NT>> simpleG;
   vector<pair<pair<IT, IT>, NT>> currCol;
-  currCol.push_back(make_pair(make_pair(G.start[0], G.end[0]), G.w[0]));
-  for (IT k = 0; k < nnz - 1; ++k) {
+  if (nnz > 0)
+    currCol.push_back(make_pair(make_pair(G.start[0], G.end[0]), G.w[0]));
+  for (IT k = 0; k + 1 < nnz; ++k) {
     if (G.start[k] != G.start[k + 1]) {
       std::sort(currCol.begin(), currCol.end());
       simpleG.push_back(Triple<IT, NT>(
@@ -190,9 +191,10 @@ CSC<IT, NT>::CSC(graph &G) : nnz(G.m), rows(G.n), cols(G.n) {
   }
   // now do the last row
   sort(currCol.begin(), currCol.end());
-  simpleG.push_back(Triple<IT, NT>(currCol[0].first.first,
-                                   currCol[0].first.second, currCol[0].second));
-  for (int i = 0; i < currCol.size() - 1; ++i) {
+  if (!currCol.empty())
+    simpleG.push_back(Triple<IT, NT>(currCol[0].first.first,
+                                     currCol[0].first.second, currCol[0].second));
+  for (int i = 0; i + 1 < currCol.size(); ++i) {
     if (currCol[i].first == currCol[i + 1].first) {
       simpleG.back().val += currCol[i + 1].second;
     } else {
diff --git a/CSR.h b/CSR.h
index f7d3b4c..0bd08e7 100644
--- a/CSR.h
+++ b/CSR.h
@@ -257,8 +257,9 @@ CSR<IT, NT>::CSR(graph &G) : nnz(G.m), rows(G.n), cols(G.n), zerobased(true) {
 
   vector<Triple<IT, NT>> simpleG;
   vector<pair<pair<IT, IT>, NT>> currCol;
-  currCol.push_back(make_pair(make_pair(G.start[0], G.end[0]), G.w[0]));
-  for (IT k = 0; k < nnz - 1; ++k) {
+  if (nnz > 0)
+    currCol.push_back(make_pair(make_pair(G.start[0], G.end[0]), G.w[0]));
+  for (IT k = 0; k + 1 < nnz; ++k) {
     if (G.start[k] != G.start[k + 1]) {
       std::sort(currCol.begin(), currCol.end());
       simpleG.push_back(Triple<IT, NT>(
@@ -280,9 +281,10 @@ CSR<IT, NT>::CSR(graph &G) : nnz(G.m), rows(G.n), cols(G.n), zerobased(true) {
 
   // now do the last row
   sort(currCol.begin(), currCol.end());
-  simpleG.push_back(Triple<IT, NT>(currCol[0].first.first,
-                                   currCol[0].first.second, currCol[0].second));
-  for (int i = 0; i < currCol.size() - 1; ++i) {
+  if (!currCol.empty())
+    simpleG.push_back(Triple<IT, NT>(currCol[0].first.first,
+                                     currCol[0].first.second, currCol[0].second));
+  for (int i = 0; i + 1 < currCol.size(); ++i) {
     if (currCol[i].first == currCol[i + 1].first) {
       simpleG.back().val += currCol[i + 1].second;
     } else {
-- 
2.43.0


From 0bf17a5adb995933d16d75fbe519715b4b0490e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 20/63] fix: CSC::MergeDuplicates works and is used by the
 constructor that promises it

MergeDuplicates indexed two vectors it had never sized, and freed the arrays of a matrix
without entries.  The constructor from tuples, documented to handle duplicates in the input
and given the operation to combine them with, left them in the matrix.
---
 CSC.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/CSC.h b/CSC.h
index f6aeb2e..368a6ab 100644
--- a/CSC.h
+++ b/CSC.h
@@ -376,11 +376,14 @@ CSC<IT, NT>::CSC (GrB_Matrix A)
 template <class IT, class NT>
 template <typename AddOperation>
 void CSC<IT, NT>::MergeDuplicates(AddOperation addop) {
+  if (nnz == 0)
+    return;
+
   vector<IT> diff(cols, 0);
   std::adjacent_difference(colptr + 1, colptr + cols + 1, diff.begin());
 
-  vector<vector<IT>> v_rowids;
-  vector<vector<NT>> v_values;
+  vector<vector<IT>> v_rowids(cols);
+  vector<vector<NT>> v_values(cols);
 
   if (nnz > 0) {
 #pragma omp parallel for
@@ -469,6 +472,7 @@ CSC<IT, NT>::CSC(vector<tuple<IT, IT, NT>> &tuple, IT m, IT n,
   //   // TO DO: as value I want a pair<kmer_id, vector<posix_in_read>>
   // }
   my_free<IT>(work);
+  MergeDuplicates(addop);
 }
 
 // Construct a Csc object from parallel arrays
-- 
2.43.0


From a1afc796ea4c6c655d538954fca5a86fef896b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:27 +0000
Subject: [PATCH 21/63] fix: CSC submatrix references

SpRef, SpRef1 and SpRef2 are documented to behave like the matlab indexing A(ri,ci), but kept the
row ids of the whole matrix, accepted an index one past the end and asserted when the
submatrix has no entries.  SpRef1 sized its bitmap by the length of the list and ignored
repeated rows; SpRef2 kept values in an index array (which does not compile when the types
differ), wrote the columns at their offset in the whole matrix and leaked its temporaries.
---
 CSC.h | 72 ++++++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 49 insertions(+), 23 deletions(-)

diff --git a/CSC.h b/CSC.h
index 368a6ab..673817c 100644
--- a/CSC.h
+++ b/CSC.h
@@ -661,11 +661,11 @@ CSC<IT, NT>::get_grb_mat
 template <class IT, class NT>
 CSC<IT, NT> CSC<IT, NT>::SpRef2(const IT *ri, const IT rilen, const IT *ci,
                                 const IT cilen) {
-  if (cilen > 0 && ci[cilen - 1] > cols) {
+  if (cilen > 0 && ci[cilen - 1] >= cols) {
     cerr << "Col indices out of bounds" << endl;
     abort();
   }
-  if (rilen > 0 && ri[rilen - 1] > rows) {
+  if (rilen > 0 && ri[rilen - 1] >= rows) {
     cerr << "Row indices out of bounds" << endl;
     abort();
   }
@@ -680,7 +680,7 @@ CSC<IT, NT> CSC<IT, NT>::SpRef2(const IT *ri, const IT rilen, const IT *ci,
   // NT* values_out = new NT[nnz_ci];
   // IT* len_out = new IT[cilen];
   IT *rowids_out = my_malloc<IT>(nnz_ci);
-  IT *values_out = my_malloc<NT>(nnz_ci);
+  NT *values_out = my_malloc<NT>(nnz_ci);
   IT *len_out = my_malloc<IT>(cilen);
 
   IT idx = 0;
@@ -689,7 +689,8 @@ CSC<IT, NT> CSC<IT, NT>::SpRef2(const IT *ri, const IT rilen, const IT *ci,
     IT cidx2 = colptr[ci[i] + 1];
 
     intersect(&rowids[cidx1], &values[cidx1], cidx2 - cidx1, ri, rilen,
-              &rowids_out[cidx1], &values_out[cidx1], &len_out[i]);
+              &rowids_out[idx], &values_out[idx], &len_out[i]);
+    idx += len_out[i];
   }
 
   CSC C;
@@ -705,16 +706,19 @@ CSC<IT, NT> CSC<IT, NT>::SpRef2(const IT *ri, const IT rilen, const IT *ci,
   C.nnz = C.colptr[C.cols];
   // C.rowids = new IT[C.nnz];
   // C.values = new NT[C.nnz];
-  C.rowids = my_malloc<IT>(C.nnz);
-  C.values = my_malloc<NT>(C.nnz);
+  if (C.nnz > 0) {
+    C.rowids = my_malloc<IT>(C.nnz);
+    C.values = my_malloc<NT>(C.nnz);
+  }
 
-  for (int i = 0; i < C.cols; ++i) // combine step
+  for (IT k = 0; k < C.nnz; ++k) // row ids are relative to ri
   {
-    IT cidx1 = colptr[ci[i]];
-    IT cidx2 = cidx1 + len_out[i];
-    copy(&rowids_out[cidx1], &rowids_out[cidx2], C.rowids + C.colptr[i]);
-    copy(&values_out[cidx1], &values_out[cidx2], C.values + C.colptr[i]);
+    C.rowids[k] = lower_bound(ri, ri + rilen, rowids_out[k]) - ri;
+    C.values[k] = values_out[k];
   }
+  my_free<IT>(rowids_out);
+  my_free<NT>(values_out);
+  my_free<IT>(len_out);
   return C;
 }
 
@@ -728,11 +732,11 @@ CSC<IT, NT> CSC<IT, NT>::SpRef2(const IT *ri, const IT rilen, const IT *ci,
 // behaviour is exactly similar to the matlab implementation
 template <class IT, class NT>
 CSC<IT, NT> CSC<IT, NT>::SpRef(const vector<IT> &ri, const vector<IT> &ci) {
-  if ((!ci.empty()) && (ci.back() > cols)) {
+  if ((!ci.empty()) && (ci.back() >= cols)) {
     cerr << "Col indices out of bounds" << endl;
     abort();
   }
-  if ((!ri.empty()) && (ri.back() > rows)) {
+  if ((!ri.empty()) && (ri.back() >= rows)) {
     cerr << "Row indices out of bounds" << endl;
     abort();
   }
@@ -761,7 +765,15 @@ CSC<IT, NT> CSC<IT, NT>::SpRef(const vector<IT> &ri, const vector<IT> &ci) {
 
   // Next, allocate memory and save the result matrix
   // This two-step implementation is better for multithreading
-  CSC refmat(refnnz, ri.size(), ci.size(), 0);
+  CSC refmat;
+  refmat.rows = ri.size();
+  refmat.cols = ci.size();
+  refmat.nnz = refnnz;
+  refmat.colptr = my_malloc<IT>(refmat.cols + 1);
+  if (refnnz > 0) {
+    refmat.rowids = my_malloc<IT>(refnnz);
+    refmat.values = my_malloc<NT>(refnnz);
+  }
   refmat.colptr[0] = 0;
   IT idx = 0;
   for (int i = 0; i < ci.size(); i++) {
@@ -775,7 +787,7 @@ CSC<IT, NT> CSC<IT, NT>::SpRef(const vector<IT> &ri, const vector<IT> &ci) {
       else //(ri[k]==rowids[j])
       {
         refmat.values[idx] = values[j];
-        refmat.rowids[idx++] = rowids[j];
+        refmat.rowids[idx++] = k;
         k++;
         // j++; // wait for the next iteration of the inner loop to alow reapted
         // rows
@@ -797,16 +809,16 @@ CSC<IT, NT> CSC<IT, NT>::SpRef(const vector<IT> &ri, const vector<IT> &ci) {
 // behaviour is exactly similar to the matlab implementation
 template <class IT, class NT>
 CSC<IT, NT> CSC<IT, NT>::SpRef1(const vector<IT> &ri, const vector<IT> &ci) {
-  if ((!ci.empty()) && (ci.back() > cols)) {
+  if ((!ci.empty()) && (ci.back() >= cols)) {
     cerr << "Col indices out of bounds" << endl;
     abort();
   }
-  if ((!ri.empty()) && (ri.back() > rows)) {
+  if ((!ri.empty()) && (ri.back() >= rows)) {
     cerr << "Row indices out of bounds" << endl;
     abort();
   }
 
-  BitMap bmap(ri.size()); // space requirement n bits
+  BitMap bmap(rows); // space requirement n bits
   bmap.reset();           // this is time consuming .....
   for (int i = 0; i < ri.size(); i++) {
     bmap.set_bit(ri[i]);
@@ -817,22 +829,36 @@ CSC<IT, NT> CSC<IT, NT>::SpRef1(const vector<IT> &ri, const vector<IT> &ci) {
   for (int i = 0; i < ci.size(); i++) {
     IT endIdx = colptr[ci[i] + 1];
     for (IT j = colptr[ci[i]]; j < endIdx; j++) {
-      if (bmap.get_bit(rowids[j]))
-        refnnz++;
+      if (bmap.get_bit(rowids[j])) {
+        // ri might have repeated entries
+        auto pos = equal_range(ri.begin(), ri.end(), rowids[j]);
+        refnnz += pos.second - pos.first;
+      }
     }
   }
 
   // Next, allocate memory and save the result matrix
   // This two-step implementation is better for multithreading
-  CSC refmat(refnnz, ri.size(), ci.size(), 0);
+  CSC refmat;
+  refmat.rows = ri.size();
+  refmat.cols = ci.size();
+  refmat.nnz = refnnz;
+  refmat.colptr = my_malloc<IT>(refmat.cols + 1);
+  if (refnnz > 0) {
+    refmat.rowids = my_malloc<IT>(refnnz);
+    refmat.values = my_malloc<NT>(refnnz);
+  }
   refmat.colptr[0] = 0;
   IT idx = 0;
   for (int i = 0; i < ci.size(); i++) {
     IT endIdx = colptr[ci[i] + 1];
     for (IT j = colptr[ci[i]]; j < endIdx; j++) {
       if (bmap.get_bit(rowids[j])) {
-        refmat.values[idx] = values[j];
-        refmat.rowids[idx++] = rowids[j];
+        auto pos = equal_range(ri.begin(), ri.end(), rowids[j]);
+        for (auto it = pos.first; it != pos.second; ++it) {
+          refmat.values[idx] = values[j];
+          refmat.rowids[idx++] = it - ri.begin();
+        }
       }
     }
     refmat.colptr[i + 1] = idx;
-- 
2.43.0


From 96f961a465edbf8c96eeb01b7fcdb3a69ab39bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:32 +0000
Subject: [PATCH 22/63] fix: csr2csc_atomic_nosort stays inside its arrays

The loop building the column pointers ran one column too far, reading a counter and writing a
pointer past the end of the arrays.
---
 util/transpose.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/transpose.h b/util/transpose.h
index 8be72e8..6016896 100644
--- a/util/transpose.h
+++ b/util/transpose.h
@@ -32,7 +32,7 @@ void csr2csc_atomic_nosort (IT m, IT n, IT nnz, IT * csrRowPtr, IT * csrColIdx,
 		}
 	}
 	cscColPtr[0] = 0;
-	for (IT i=0; i <= n; i++)
+	for (IT i=0; i < n; i++)
 	{
 		cscColPtr[i+1] = atomicColPtr[i] + cscColPtr[i];
 	}
-- 
2.43.0


From 1c0490900e86f2b4e5eeb5e5fc29a56151232e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:38 +0000
Subject: [PATCH 23/63] fix: removeDuplicates of nothing

The number of remaining triples was 1 for an empty list.
---
 util/triple-util.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/triple-util.h b/util/triple-util.h
index e474bb2..24e5f6f 100644
--- a/util/triple-util.h
+++ b/util/triple-util.h
@@ -12,6 +12,8 @@ IT removeDuplicates(IT numValues, Triple<IT, NT> *triples) {
         return lhs.row < rhs.row || (lhs.row == rhs.row && lhs.col < rhs.col);
     });
 
+    if (numValues == 0) { return 0; }
+
     IT dst = 1;
     for (IT src = 1; src < numValues; src++) {
         if (triples[src].row != triples[src - 1].row || triples[src].col != triples[src - 1].col) {
-- 
2.43.0


From 38fb0b09d9e959a000267bc7afe27b80423fa5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:12 +0000
Subject: [PATCH 24/63] fix: comparing matrices without rows or columns

operator== read the pointer arrays of default-constructed and emptied matrices, which do not exist.
---
 CSC.h | 2 ++
 CSR.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/CSC.h b/CSC.h
index 673817c..e41d3a3 100644
--- a/CSC.h
+++ b/CSC.h
@@ -550,6 +550,8 @@ template <class IT, class NT>
 bool CSC<IT, NT>::operator==(const CSC<IT, NT> &rhs) {
   if (nnz != rhs.nnz || rows != rhs.rows || cols != rhs.cols)
     return false;
+  if (cols == 0) // no arrays to compare
+    return true;
   bool same = std::equal(colptr, colptr + cols + 1, rhs.colptr);
   same = same && std::equal(rowids, rowids + nnz, rhs.rowids);
 
diff --git a/CSR.h b/CSR.h
index 0bd08e7..3f4c3fb 100644
--- a/CSR.h
+++ b/CSR.h
@@ -475,6 +475,8 @@ bool CSR<IT, NT>::operator==(const CSR<IT, NT> &rhs) {
            rhs.cols);
     return false;
   }
+  if (rows == 0) // no arrays to compare
+    return true;
   if (zerobased != rhs.zerobased) {
     IT *tmp_rowptr = my_malloc<IT>(rows + 1);
     IT *tmp_colids = my_malloc<IT>(nnz);
-- 
2.43.0


From 57594f78565855952c538ad8c6ec05a63277b7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:57 +0000
Subject: [PATCH 25/63] fix: matrix readers release their temporaries

ReadASCII and ReadBinary copied the matrix out of a heap object they never
deleted; ReadBinary also left the file open and its buffers allocated on errors.
---
 IO.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/IO.h b/IO.h
index a296f9b..6408f6a 100644
--- a/IO.h
+++ b/IO.h
@@ -25,6 +25,7 @@ int ReadBinary(string filename, CSC<IT,NT> & csc)
     if (m <= 0 || n <= 0 || nnz <= 0)
     {
         cerr << "Problem with matrix size in binary input file" << filename << endl;
+        fclose(f);
         return -1;
     }
     double start = omp_get_wtime( );
@@ -41,6 +42,10 @@ int ReadBinary(string filename, CSC<IT,NT> & csc)
     if(rows != nnz || cols != nnz || nums != nnz)
     {
         cerr << "Problem with FREAD, aborting... " << endl;
+        fclose(f);
+        delete [] rowindices;
+        delete [] colindices;
+        delete [] vals;
         return -1;
     }
     double end = omp_get_wtime( );
@@ -49,7 +54,7 @@ int ReadBinary(string filename, CSC<IT,NT> & csc)
 
     fclose(f);
     
-    csc = *(new CSC<IT,NT>(rowindices, colindices, vals , nnz, m, n));
+    csc = CSC<IT,NT>(rowindices, colindices, vals , nnz, m, n);
     
     delete [] rowindices;
     delete [] colindices;
@@ -132,7 +137,7 @@ int ReadASCII(string filename, CSC<IT,NT> & csc)
     std::cout << "Input Matrix: Rows = " << m << ", Columns= " << n << ", nnz = " << nnz << std::endl;
 
     cout << "Converting to csc ... " << endl << endl;
-    csc= *(new CSC<IT,NT>(triples, nnz, m, n));
+    csc = CSC<IT,NT>(triples, nnz, m, n);
     csc.totalcols = n;
     delete [] triples;
     return 1;
-- 
2.43.0


From f9ecf993eedbbd3d29d28d91ec71162fd3c6234b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:13 +0000
Subject: [PATCH 26/63] fix: matrix file readers parse any well-formed file

Values were parsed with atoi (1.5 became 1, 2e1 became 2), several blanks or
tabs between the words were misread, comment lines of 255 characters and more
ended the header scan, and a comment mentioning general or symmetric changed
the meaning of the file. CSR(file) also read the size line with %d whatever the
index type, and allocated sizeof(IT) times the memory needed.
---
 CSR.h     | 61 ++++++++++++++++-------------------------
 IO.h      | 82 ++++++++++++++++++-------------------------------------
 utility.h | 23 ++++++++++++++++
 3 files changed, 72 insertions(+), 94 deletions(-)

diff --git a/CSR.h b/CSR.h
index 3f4c3fb..b1ad866 100644
--- a/CSR.h
+++ b/CSR.h
@@ -544,31 +544,30 @@ CSR<IT, NT>::CSR(const string filename) : zerobased(true) {
   IT i;
   bool isUnsy;
   IT num, offset, tmp_nz;
-  char *line, *ch;
-  FILE *fp;
+  string line;
   IT *col_coo, *row_coo;
   NT *val_coo;
   IT *each_row_index;
   IT *nnz_num;
-  const int LINE_LENGTH_MAX = 256;
-
-  isUnsy = false;
-  line = (char *)malloc(sizeof(char) * LINE_LENGTH_MAX);
 
   /* Open File */
-  fp = fopen(filename.c_str(), "r");
-  if (fp == NULL) {
+  ifstream infile(filename.c_str());
+  if (!infile.is_open()) {
     exit(1);
   }
-  do {
-    fgets(line, LINE_LENGTH_MAX, fp);
-    if (strstr(line, "general")) {
-      isUnsy = true;
-    }
-  } while (line[0] == '%');
+  /* Only the banner says whether the matrix is symmetric, comments do not */
+  getline(infile, line);
+  isUnsy = line.find("general") != string::npos;
+  while (infile && line[0] == '%') {
+    getline(infile, line);
+  }
 
   /* Get size info */
-  sscanf(line, "%d %d %d", &rows, &cols, &tmp_nz);
+  long long size_info[3];
+  sscanf(line.c_str(), "%lld %lld %lld", &size_info[0], &size_info[1], &size_info[2]);
+  rows = (IT)size_info[0];
+  cols = (IT)size_info[1];
+  tmp_nz = (IT)size_info[2];
 
   /* Store in COO format */
   num = 0;
@@ -576,27 +575,14 @@ CSR<IT, NT>::CSR(const string filename) : zerobased(true) {
   row_coo = (IT *)malloc(sizeof(IT) * (tmp_nz));
   val_coo = (NT *)malloc(sizeof(NT) * (tmp_nz));
 
-  while (fgets(line, LINE_LENGTH_MAX, fp)) {
-    ch = line;
-    /* Read first word (row id)*/
-    row_coo[num] = (IT)(atoi(ch) - 1);
-    ch = strchr(ch, ' ');
-    ch++;
-    /* Read second word (column id)*/
-    col_coo[num] = (IT)(atoi(ch) - 1);
-    ch = strchr(ch, ' ');
-
-    if (ch != NULL) {
-      ch++;
-      /* Read third word (value data)*/
-      val_coo[num] = (NT)atof(ch);
-      ch = strchr(ch, ' ');
-    } else {
-      val_coo[num] = 1.0;
-    }
+  while (num < tmp_nz && getline(infile, line)) {
+    if (!parseEntry(line, row_coo[num], col_coo[num], val_coo[num]))
+      continue;
+    row_coo[num]--;
+    col_coo[num]--;
     num++;
   }
-  fclose(fp);
+  infile.close();
 
   /* Count the number of non-zero in each row */
   nnz_num = (IT *)malloc(sizeof(IT) * rows);
@@ -614,9 +600,9 @@ CSR<IT, NT>::CSR(const string filename) : zerobased(true) {
   nnz = tmp_nz;
 
   /* Allocation of rpt, col, val */
-  rowptr = my_malloc<IT>(sizeof(IT) * (rows + 1));
-  colids = my_malloc<IT>(sizeof(IT) * (nnz));
-  values = my_malloc<NT>(sizeof(NT) * (nnz));
+  rowptr = my_malloc<IT>(rows + 1);
+  colids = my_malloc<IT>(nnz);
+  values = my_malloc<NT>(nnz);
 
   offset = 0;
   for (i = 0; i < rows; i++) {
@@ -640,7 +626,6 @@ CSR<IT, NT>::CSR(const string filename) : zerobased(true) {
     }
   }
 
-  free(line);
   free(nnz_num);
   free(row_coo);
   free(col_coo);
diff --git a/IO.h b/IO.h
index 6408f6a..32ca4de 100644
--- a/IO.h
+++ b/IO.h
@@ -65,23 +65,20 @@ int ReadBinary(string filename, CSC<IT,NT> & csc)
 template <typename IT, typename NT>
 int ReadASCII(string filename, CSC<IT,NT> & csc)
 {
-    bool isSymmetric = false;
     double start = omp_get_wtime( );
     ifstream infile(filename.c_str());
-    char line[256];
-    char c = infile.get();
-    while(c == '%')
+    string line;
+    // only the banner says whether the matrix is symmetric, comments do not
+    getline(infile, line);
+    bool isSymmetric = line[0] == '%' && line.find("symmetric") != string::npos;
+    if (isSymmetric) {
+        cout << "Matrix is symmetric" << endl;
+    }
+    while(infile && line[0] == '%')
     {
-        infile.getline(line,256);
-        if (strstr(line, "symmetric")) {
-            isSymmetric = true;
-            cout << "Matrix is symmetric" << endl;
-        }
-        c = infile.get();
+        getline(infile, line);
     }
-    infile.unget();
 
-    infile.getline(line,256);
     IT m,n,nnz;
     std::stringstream ss{line};
     ss >> m >> n >> nnz;
@@ -94,24 +91,10 @@ int ReadASCII(string filename, CSC<IT,NT> & csc)
     if (infile.is_open())
     {
         IT cnz = 0;	// current number of nonzeros
-        while (! infile.eof() && cnz < nnz)
+        while (cnz < nnz && getline(infile, line))
         {
-            infile.getline(line,256);
-            char *ch = line;
-            triples[cnz].row = (IT)(atoi(ch));
-            ch = strchr(ch, ' ');
-            ch++;
-            triples[cnz].col = (IT)(atoi(ch));
-            ch = strchr(ch, ' ');
-            if (ch != NULL) {
-                ch++;
-                /* Read third word (value data)*/
-                triples[cnz].val = (NT)(atoi(ch));
-                ch = strchr(ch, ' ');
-            }
-            else {
-                triples[cnz].val = 1.0;
-            }
+            if (!parseEntry(line, triples[cnz].row, triples[cnz].col, triples[cnz].val))
+                continue;
             // infile >> triples[cnz].row >> triples[cnz].col >> triples[cnz].val;	// row-col-value
             triples[cnz].row--;
             triples[cnz].col--;
@@ -156,27 +139,24 @@ int ReadASCII_Triples(string	  filename,
 					  bool		  remove_diags = false,
 					  bool 		  rand_vals = false)
 {
-    bool isSymmetric = false;
     double start = omp_get_wtime( );
     ifstream infile(filename.c_str());
-    char line[256];
-    char c = infile.get();
-    while(c == '%')
+    string line;
+    // only the banner says whether the matrix is symmetric, comments do not
+    getline(infile, line);
+    bool isSymmetric = line[0] == '%' && line.find("symmetric") != string::npos;
+    if (isSymmetric) {
+        cout << "Matrix is symmetric" << endl;
+    }
+    while(infile && line[0] == '%')
     {
-        infile.getline(line,256);
-        if (strstr(line, "symmetric")) {
-            isSymmetric = true;
-            cout << "Matrix is symmetric" << endl;
-        }
-        c = infile.get();
+        getline(infile, line);
     }
-    infile.unget();
 
 	if (remove_diags)
 		cout << "will remove diagonals from the matrix" << endl;
 
 	IT m,n,nnz;
-	infile.getline(line,256);
     std::stringstream ss{line};
     ss >> m >> n >> nnz;
 	    
@@ -190,22 +170,12 @@ int ReadASCII_Triples(string	  filename,
     if (infile.is_open())
     {
         IT cnz = 0;
-        while (! infile.eof() && cnz < nnz)
+        while (cnz < nnz && getline(infile, line))
         {
-            infile.getline(line,256);
-            char *ch = line;
-            IT rid = (IT)(atoi(ch));
-            ch = strchr(ch, ' ');
-            ch++;
-            IT cid = (IT)(atoi(ch));
-            ch = strchr(ch, ' ');
-			NT val = 1.0;
-			if (ch != NULL)
-			{
-                ch++;
-                val = (NT)(atoi(ch));
-                ch = strchr(ch, ' ');
-			}
+            IT rid, cid;
+            NT val;
+            if (!parseEntry(line, rid, cid, val))
+                continue;
 
 			if (rand_vals)
 				val = rand()%10 + 7;
diff --git a/utility.h b/utility.h
index 6329ec2..6630a80 100644
--- a/utility.h
+++ b/utility.h
@@ -11,6 +11,8 @@
 #include <omp.h>
 #include <stdint.h>
 #include <stdlib.h>
+#include <string>
+#include <type_traits>
 #include <unistd.h>
 #include <vector>
 //#include <numa.h>
@@ -37,6 +39,27 @@ struct ErrorTolerantEqual : public binary_function<T, T, bool> {
   T epsilon;
 };
 
+// Reads a line "row column [value]" of a Matrix Market file; the value is 1 if
+// there is none. Returns false if the line is blank.
+template <typename IT, typename NT>
+bool parseEntry(const std::string &line, IT &row, IT &col, NT &val) {
+  const char *ch = line.c_str();
+  char *end;
+  long long i = strtoll(ch, &end, 10);
+  if (end == ch)
+    return false;
+  row = (IT)i;
+  col = (IT)strtoll(end, &end, 10);
+  ch = end;
+  if (std::is_floating_point<NT>::value)
+    val = (NT)strtod(ch, &end);
+  else
+    val = (NT)strtold(ch, &end);
+  if (end == ch)
+    val = 1;
+  return true;
+}
+
 // Because identify reports ambiguity in PGI compilers
 template <typename T> struct myidentity : public std::unary_function<T, T> {
   const T operator()(const T &x) const { return x; }
-- 
2.43.0


From 8647d7010743c5e1c9964343f2cfee715cd5ba08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:57 +0000
Subject: [PATCH 27/63] fix: CSR from an iso-valued or unsorted GraphBLAS
 matrix

The constructors asserted that the library had not chosen an iso-valued or jumbled representation; ask for expanded, sorted arrays instead, and release the descriptor.
---
 CSR.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/CSR.h b/CSR.h
index b1ad866..a72d5a4 100644
--- a/CSR.h
+++ b/CSR.h
@@ -385,7 +385,6 @@ CSR<IT, NT>::CSR (GrB_Matrix A) :
 				  "CSR matrix index type and GrB_Matrix index type "
 				  "must be the same");
 
-	bool			is_iso, is_jumbled;
 	GrB_Index		ap_size, aj_size, ax_size;
 	GrB_Index		nr, nc, nnz;
 	GrB_Descriptor	desc = NULL;
@@ -407,11 +406,9 @@ CSR<IT, NT>::CSR (GrB_Matrix A) :
 						  &ap_size,
 						  &aj_size,
 						  &ax_size,
-						  &is_iso,
-						  &is_jumbled,
+						  nullptr,
+						  nullptr,
 						  desc);
-	assert(!is_iso && "GraphBLAS matrix is iso-valued.");
-	assert(!is_jumbled && "GraphBLAS matrix is not sorted\n");
 
     GrB_Descriptor_free(&desc);
 
@@ -434,19 +431,18 @@ CSR<IT, NT>::CSR (GrB_Matrix *A, bool dup_mat) :
 		GrB_Matrix_dup(&tmp, *A); // deep
 
 	GrB_Type		nz_type;
-	bool			is_uniform, is_jumbled;
 	GrB_Index		ap_size, aj_size, ax_size;
 	GrB_Descriptor	desc = NULL;
 	GrB_Descriptor_new(&desc);
 	GxB_Matrix_type(&nz_type, tmp);	
 	GrB_Matrix_nvals(&this->nnz, tmp);	
+	// force expanded (not iso-valued) and sorted output
 	GxB_Matrix_export_CSR(&tmp, &nz_type, &this->rows, &this->cols,
 						  &this->rowptr, &this->colids, (void **)&this->values,
 						  &ap_size, &aj_size, &ax_size,
-						  &is_uniform, &is_jumbled,
+						  nullptr, nullptr,
 						  desc); // frees the graphblas matrix
-	assert(!is_jumbled && "GraphBLAS matrix is not sorted\n");
-
+    GrB_Descriptor_free(&desc);
 
 	return;						  
 }
-- 
2.43.0


From a184a035fde7aeec062bb7eda6e34fe3330e019e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:21 +0000
Subject: [PATCH 28/63] fix: handing CSR and CSC arrays to GraphBLAS

CSC::get_grb_mat announced a column pointer array of rows+1 entries; get_grb_mat_ptr announced the column ids in units of the value type; get_grb_mat(GrB_Matrix*) lost the previous matrix and shifted rows and positions wrongly for one-based indices; CSC(GrB_Matrix) lost its descriptor.
---
 CSC.h |  4 +++-
 CSR.h | 12 +++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/CSC.h b/CSC.h
index e41d3a3..72f51bd 100644
--- a/CSC.h
+++ b/CSC.h
@@ -369,6 +369,8 @@ CSC<IT, NT>::CSC (GrB_Matrix A)
                           nullptr,
                           desc);
 
+    GrB_Descriptor_free(&desc);
+
     return;
 }
 
@@ -635,7 +637,7 @@ CSC<IT, NT>::get_grb_mat
            "Dimension mismatch in converting CSR matrix to GraphBLAS matrix.");
 
     bool is_iso = false, is_jumbled = false;
-    GrB_Index ap_size = sizeof(IT) * (this->rows+1),
+    GrB_Index ap_size = sizeof(IT) * (this->cols+1),
             aj_size = sizeof(IT) * this->nnz,
             ax_size = sizeof(NT) * this->nnz;
 
diff --git a/CSR.h b/CSR.h
index a72d5a4..5727730 100644
--- a/CSR.h
+++ b/CSR.h
@@ -399,6 +399,7 @@ CSR<IT, NT>::CSR (GrB_Matrix A) :
 	this->nnz  = nnz;
 	
 	// does not free the matrix, but the matrix has no entries after this
+	// force expanded (not iso-valued) and sorted output
 	GxB_Matrix_unpack_CSR(A,
 						  &this->rowptr,
 						  &this->colids,
@@ -742,18 +743,15 @@ CSR<IT, NT>::get_grb_mat
 	int			 decr  = 1 - this->zerobased;
 	for (IT r = 0; r < this->rows; ++r)
 	{
-		for (IT cidx = this->rowptr[r]; cidx < this->rowptr[r+1]; ++cidx)
+		for (IT cidx = this->rowptr[r]-decr; cidx < this->rowptr[r+1]-decr; ++cidx)
 		{
-			rinds[i]   = static_cast<GrB_Index>(r-decr);
+			rinds[i]   = static_cast<GrB_Index>(r);
 			cinds[i++] = static_cast<GrB_Index>(this->colids[cidx]-decr);
 		}
 	}
 
 	if (A != NULL)
-	{
-		GrB_Matrix_clear(*A);
-		*A = NULL;
-	}
+		GrB_Matrix_free(A);
 
 	GrbMatrixBuild<NT>()(A, rinds, cinds, this->values,
 						 this->rows, this->cols, this->nnz);
@@ -836,7 +834,7 @@ CSR<IT, NT>::get_grb_mat_ptr
 	// make sure CSR object is sorted
 	GxB_Matrix_import_CSR(A, to_grb.get_type(), this->rows, this->cols,
 						  &this->rowptr, &this->colids, (void **)&this->values,
-						  sizeof(IT)*(this->rows+1), sizeof(NT)*this->nnz,
+						  sizeof(IT)*(this->rows+1), sizeof(IT)*this->nnz,
 						  sizeof(NT)*this->nnz, false, false, desc);
 
 
-- 
2.43.0


From 1a9c03b112a066abadd10b3435cebba182ef031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:44 +0000
Subject: [PATCH 29/63] fix: GraphBLAS preprocessing releases what it allocates

read_grb_mtx lost its descriptor, sort_by_degree the matrix it replaces, get_lowtri its scalar and convert_to_csc a second empty matrix.
---
 grb_util.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/grb_util.h b/grb_util.h
index 2e53512..db0f3b5 100644
--- a/grb_util.h
+++ b/grb_util.h
@@ -776,6 +776,7 @@ read_grb_mtx
 		GrB_Matrix_eWiseAdd_Semiring(*A, NULL, NULL,
 									 GrbAlgObj<NT>().get_sr_plus_times(),
 		 							 *A, *A, desc);
+		GrB_Descriptor_free(&desc);
 		
 		// GxB_Matrix_fprint(tmp, "tmp", GxB_COMPLETE, stdout);
 	}
@@ -826,6 +827,7 @@ sort_by_degree
     delete[] mapping;
     delete[] cnts;
 
+    GrB_Matrix_free(A);
     GrbMatrixBuild<NT>()(A, rids, cids, vals, nrows, ncols, nnz);
 
     delete[] rids;
@@ -850,6 +852,7 @@ get_lowtri
 	GrB_Matrix_new(L, to_grb.get_type(), n, n);
 	GxB_Scalar_setElement_INT64(Thunk, (int64_t) (-1));
 	GxB_Matrix_select(*L, NULL, NULL, GxB_TRIL, A, Thunk, NULL);
+	GxB_Scalar_free(&Thunk);
 
 	return;	
 }
@@ -877,7 +880,6 @@ convert_to_csc
     GxB_Global_Option_get(GxB_FORMAT, &old);
     GxB_Global_Option_set(GxB_FORMAT, GxB_BY_COL);
 
-    GrB_Matrix_new(A_csc, GrbAlgObj<NT>{}.get_type(), nrows, ncols);
     GrbMatrixBuild<NT>{}(A_csc, rids, cids, vals, nrows, ncols, nnz);
 
     GxB_Global_Option_set(GxB_FORMAT, old);
-- 
2.43.0


From 974228f3072516b54352ea4c028f2e7623a21e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:58 +0000
Subject: [PATCH 30/63] fix: triangle counting of a graph without edges

preprocessInput kept one triple even when there was none.
---
 benchmarks/TriCntAll.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/benchmarks/TriCntAll.cpp b/benchmarks/TriCntAll.cpp
index 8431180..f798e84 100644
--- a/benchmarks/TriCntAll.cpp
+++ b/benchmarks/TriCntAll.cpp
@@ -227,7 +227,7 @@ void preprocessInput(CSC<IT, NT> &A) {
         return rhs.row < lhs.row || (rhs.row == lhs.row && rhs.col < lhs.col);
     });
 
-    IT dst = 1;
+    IT dst = idx > 0 ? 1 : 0;
     for (IT src = 1; src < idx; src++) {
         if (triples[src].row != triples[src - 1].row || triples[src].col != triples[src - 1].col) {
             triples[dst] = triples[src];
-- 
2.43.0


From 594906dcf1040cca859cc209a99eb09f874aa2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:12 +0000
Subject: [PATCH 31/63] fix: HashIntersect reports the triangle count

It kept the mask's values (all ones) instead of the product's, so its sum was the number of nonzeros.
---
 benchmarks/TriCntAll.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/benchmarks/TriCntAll.cpp b/benchmarks/TriCntAll.cpp
index f798e84..41e284e 100644
--- a/benchmarks/TriCntAll.cpp
+++ b/benchmarks/TriCntAll.cpp
@@ -246,7 +246,7 @@ void HashIntersect(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C, c
                    MultiplyOperation multop, AddOperation addop, unsigned numThreads = 0) {
     CSR<IT, NT> Ct;
     HashSpGEMM<true>(A, B, Ct, multop, addop, numThreads);
-    C = Intersect(Ct, M, [](NT lhs, NT rhs) { return rhs; });
+    C = Intersect(Ct, M, [](NT lhs, NT rhs) { return lhs; });
     Ct.make_empty();
 }
 
-- 
2.43.0


From 95e0c53485c30645e76e20da07605e78234dcdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:32 +0000
Subject: [PATCH 32/63] Revert "fix: HashIntersect reports the triangle count"

This reverts commit 594906dcf1040cca859cc209a99eb09f874aa2da.
---
 benchmarks/TriCntAll.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/benchmarks/TriCntAll.cpp b/benchmarks/TriCntAll.cpp
index 41e284e..f798e84 100644
--- a/benchmarks/TriCntAll.cpp
+++ b/benchmarks/TriCntAll.cpp
@@ -246,7 +246,7 @@ void HashIntersect(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C, c
                    MultiplyOperation multop, AddOperation addop, unsigned numThreads = 0) {
     CSR<IT, NT> Ct;
     HashSpGEMM<true>(A, B, Ct, multop, addop, numThreads);
-    C = Intersect(Ct, M, [](NT lhs, NT rhs) { return lhs; });
+    C = Intersect(Ct, M, [](NT lhs, NT rhs) { return rhs; });
     Ct.make_empty();
 }
 
-- 
2.43.0


From c3e2a62c10d7448f2e12c3bab527d7f93918db70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:32 +0000
Subject: [PATCH 33/63] Revert "fix: triangle counting of a graph without
 edges"

This reverts commit 974228f3072516b54352ea4c028f2e7623a21e9c.
---
 benchmarks/TriCntAll.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/benchmarks/TriCntAll.cpp b/benchmarks/TriCntAll.cpp
index f798e84..8431180 100644
--- a/benchmarks/TriCntAll.cpp
+++ b/benchmarks/TriCntAll.cpp
@@ -227,7 +227,7 @@ void preprocessInput(CSC<IT, NT> &A) {
         return rhs.row < lhs.row || (rhs.row == lhs.row && rhs.col < lhs.col);
     });
 
-    IT dst = idx > 0 ? 1 : 0;
+    IT dst = 1;
     for (IT src = 1; src < idx; src++) {
         if (triples[src].row != triples[src - 1].row || triples[src].col != triples[src - 1].col) {
             triples[dst] = triples[src];
-- 
2.43.0


From c08497d9d2b94cc4b3d36a1c94f7e7d15778c99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:28 +0000
Subject: [PATCH 34/63] fix: threadsafe_queue::push cannot lose a wake-up

A consumer that had found the queue empty but not yet begun to wait missed the notification.
---
 PaRMAT/src/threadsafe_queue.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PaRMAT/src/threadsafe_queue.hpp b/PaRMAT/src/threadsafe_queue.hpp
index ad27924..251a917 100755
--- a/PaRMAT/src/threadsafe_queue.hpp
+++ b/PaRMAT/src/threadsafe_queue.hpp
@@ -142,6 +142,10 @@ void threadsafe_queue<T>::push(T new_value)
 		tail->next=std::move(p);
 		tail=new_tail;
 	}
+	// A consumer that has just found the queue empty still holds head_mutex: let it reach its wait before notifying.
+	{
+		std::lock_guard<std::mutex> head_lock(head_mutex);
+	}
 	data_cond.notify_one();
 }
 
-- 
2.43.0


From ab37fd455850b76882c3e637e95fa4d3b50e7318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:33 +0000
Subject: [PATCH 35/63] fix: threadsafe_queue::empty returns its answer

It was declared void and did not compile when used.
---
 PaRMAT/src/threadsafe_queue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PaRMAT/src/threadsafe_queue.hpp b/PaRMAT/src/threadsafe_queue.hpp
index 251a917..34e625b 100755
--- a/PaRMAT/src/threadsafe_queue.hpp
+++ b/PaRMAT/src/threadsafe_queue.hpp
@@ -36,7 +36,7 @@ public:
 	std::shared_ptr<T> wait_and_pop();
 	void wait_and_pop(T& value);
 	void push(T new_value);
-	void empty();
+	bool empty();
 
 private:
 	node* get_tail()
@@ -151,7 +151,7 @@ void threadsafe_queue<T>::push(T new_value)
 
 // empty.
 template <typename T>
-void threadsafe_queue<T>::empty()
+bool threadsafe_queue<T>::empty()
 {
 	std::lock_guard<std::mutex> head_lock(head_mutex);
 	return (head.get()==get_tail());
-- 
2.43.0


From c3470be663d26aca7a7ec25cf3c2a83212453333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:38 +0000
Subject: [PATCH 36/63] fix: a request for the whole capacity is granted

accumulate() of exactly the maximum waited forever.
---
 PaRMAT/src/capacity_controller.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PaRMAT/src/capacity_controller.hpp b/PaRMAT/src/capacity_controller.hpp
index 0b76d28..5bf6ec8 100755
--- a/PaRMAT/src/capacity_controller.hpp
+++ b/PaRMAT/src/capacity_controller.hpp
@@ -25,7 +25,7 @@ public:
 		std::unique_lock<std::mutex> accumulate_mutex(capacity_mutex);
 		dissipated_cond.wait( accumulate_mutex, [&]{
 			auto sum = accumulated + thisMuch;
-			auto ret = ( sum < max_capacity );
+			auto ret = ( sum <= max_capacity );
 			if( ret )
 				accumulated = sum;
 			return ret;
-- 
2.43.0


From c9c0679b207e11feab13751f9310720cd181b197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:43 +0000
Subject: [PATCH 37/63] fix: squares without edges when duplicates are not
 allowed

The search for duplicates ran off the empty edge list.
---
 PaRMAT/src/GraphGen_notSorted.cpp | 2 +-
 PaRMAT/src/GraphGen_sorted.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/PaRMAT/src/GraphGen_notSorted.cpp b/PaRMAT/src/GraphGen_notSorted.cpp
index c7fb405..faa9307 100755
--- a/PaRMAT/src/GraphGen_notSorted.cpp
+++ b/PaRMAT/src/GraphGen_notSorted.cpp
@@ -40,7 +40,7 @@ void fill_up_edge_vector(
 			std::sort( edgeVector.begin(), edgeVector.end() );
 
 			// Detection of Invalid edges.
-			for( unsigned long long edgeIdx = 0; edgeIdx < (edgeVector.size()-1); ++edgeIdx )
+			for( unsigned long long edgeIdx = 0; edgeIdx+1 < edgeVector.size(); ++edgeIdx )
 				if( edgeVector.at(edgeIdx) == edgeVector.at(edgeIdx+1) )
 					throwAwayEdgesIndices.push_back(edgeIdx);
 
diff --git a/PaRMAT/src/GraphGen_sorted.cpp b/PaRMAT/src/GraphGen_sorted.cpp
index 56be73b..dc9312c 100755
--- a/PaRMAT/src/GraphGen_sorted.cpp
+++ b/PaRMAT/src/GraphGen_sorted.cpp
@@ -41,7 +41,7 @@ void EachThreadGeneratesEdges(
 
 		generate_edges( std::ref(rec), std::ref(edgesVec), RMAT_a, RMAT_b, RMAT_c, directedGraph, allowEdgeToSelf, std::ref(dis), std::ref(gen), std::ref(throwAwayEdgesIndices) );
 
-		if( !allowDuplicateEdges ) {
+		if( !allowDuplicateEdges && rec.getnEdges() != 0 ) {
 
 			// Sort the edge vector.
 			std::sort( edgesVec.end()-rec.getnEdges(), edgesVec.end() );
-- 
2.43.0


From ef3ce9a9d641412f6aca790964a97df65bac9622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:47 +0000
Subject: [PATCH 38/63] fix: sorted generation writes every part when there are
 fewer columns than threads

The last loop started at the wrong slot unless all threads had been used.
---
 PaRMAT/src/GraphGen_sorted.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PaRMAT/src/GraphGen_sorted.cpp b/PaRMAT/src/GraphGen_sorted.cpp
index dc9312c..db1831e 100755
--- a/PaRMAT/src/GraphGen_sorted.cpp
+++ b/PaRMAT/src/GraphGen_sorted.cpp
@@ -155,6 +155,7 @@ bool GraphGen_sorted::GenerateGraph(
 		}
 
 		// Joining last threads.
+		recIdx -= tasks_to_complete.size();
 		for( auto& task: tasks_to_complete ) {
 			task.get();
 			printEdgeGroup(std::ref(threads_edges[recIdx%nCPUWorkerThreads]), outFile);
@@ -191,6 +192,7 @@ bool GraphGen_sorted::GenerateGraph(
 		}
 
 		// Joining last threads.
+		recIdx -= threads.size();
 		for( auto& t: threads ) {
 			t.join();
 			printEdgeGroup(std::ref(threads_edges[recIdx%nCPUWorkerThreads]), outFile);
-- 
2.43.0


From bc431d1fe5cd4fd7de01055ab7d00c9e9fb4c356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:52 +0000
Subject: [PATCH 39/63] fix: vector generation covers the same vertex range in
 both dimensions

Sources could be anything up to nVertices, targets only up to nVertices-1, and undirected graphs were split wrongly.
---
 PaRMAT/src/GraphGen_notSorted.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PaRMAT/src/GraphGen_notSorted.cpp b/PaRMAT/src/GraphGen_notSorted.cpp
index faa9307..1794861 100755
--- a/PaRMAT/src/GraphGen_notSorted.cpp
+++ b/PaRMAT/src/GraphGen_notSorted.cpp
@@ -201,7 +201,7 @@ std::vector<std::pair<int64_t, int64_t>> GraphGen_notSorted::GenerateGraph(
                                        )
 {
     
-    std::vector<Square> squares ( 1, Square( 0, nVertices, 0, nVertices-1, nEdges, 0, 0, 0 ) );
+    std::vector<Square> squares ( 1, Square( 0, nVertices, 0, nVertices, nEdges, 0, 0, 0 ) );
     
     bool allRecsAreInRange;
     do {
-- 
2.43.0


From 835d594e86a9cafb6d232d153c11bc35bc1551ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:56 +0000
Subject: [PATCH 40/63] fix: squares do not overlap

Neighbouring squares shared the middle row and column, so edges could repeat although duplicates were not allowed.
---
 PaRMAT/src/Square.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PaRMAT/src/Square.cpp b/PaRMAT/src/Square.cpp
index 7eb0308..020c376 100755
--- a/PaRMAT/src/Square.cpp
+++ b/PaRMAT/src/Square.cpp
@@ -30,9 +30,10 @@ Square& Square::operator=( const Square &cSource ) {
 
 Square Square::Get_part( const unsigned int part, double a, double b, double c, double a_edge_share, double b_edge_share, double c_edge_share ) {
 
-	auto x_start_i = ( part == 0 || part == 2 ) ? X_start : ((X_start+X_end)>>1) ;
+	// The halves share no vertex, unless there is only one.
+	auto x_start_i = ( part == 0 || part == 2 || X_start == X_end ) ? X_start : ((X_start+X_end)>>1)+1 ;
 	auto x_end_i   = ( part == 1 || part == 3 ) ? X_end	: ((X_start+X_end)>>1) ;
-	auto y_start_i = ( part == 0 || part == 1 ) ? Y_start : ((Y_start+Y_end)>>1) ;
+	auto y_start_i = ( part == 0 || part == 1 || Y_start == Y_end ) ? Y_start : ((Y_start+Y_end)>>1)+1 ;
 	auto y_end_i   = ( part == 2 || part == 3 ) ? Y_end	: ((Y_start+Y_end)>>1) ;
 
 	auto d_edge_share = 1.0 - a_edge_share - b_edge_share - c_edge_share;
-- 
2.43.0


From 34bdece089a2d6d5dd4d41c94c3c46ac600ec4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:08 +0000
Subject: [PATCH 41/63] fix: threads without rows read no row offsets of other
 threads

With fewer rows with work than threads, an idle thread read C.rowptr[rowBegin] while the owner of that row was writing it (a data race).
---
 heap_mult_generic.h                     | 6 ++++--
 spgemm-blocks/common.h                  | 3 +++
 spgemm-blocks/inner/MaskedInnerSpGEMM.h | 6 ++++--
 spgemm-blocks/masked-spgemm-inner.h     | 6 ++++--
 spgemm-blocks/masked-spgemm.h           | 6 ++++--
 5 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/heap_mult_generic.h b/heap_mult_generic.h
index 714353d..9405b4c 100644
--- a/heap_mult_generic.h
+++ b/heap_mult_generic.h
@@ -802,8 +802,10 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
         if (thisThread == numThreads - 1) { C.rowptr[C.rows] = rowPtrOffset; }
 
         // copy local values to C
-        copy(colIdsLocalMem + 1, colIdsLocalMem + threadNvals + 1, C.colids + C.rowptr[rowBegin]);
-        copy(valuesLocalMem + 1, valuesLocalMem + threadNvals + 1, C.values + C.rowptr[rowBegin]);
+        if (threadNvals > 0) {
+            copy(colIdsLocalMem + 1, colIdsLocalMem + threadNvals + 1, C.colids + C.rowptr[rowBegin]);
+            copy(valuesLocalMem + 1, valuesLocalMem + threadNvals + 1, C.values + C.rowptr[rowBegin]);
+        }
 
         my_free<IT>(colIdsLocalMem);
         my_free<NT>(valuesLocalMem);
diff --git a/spgemm-blocks/common.h b/spgemm-blocks/common.h
index 088f8c4..5113896 100644
--- a/spgemm-blocks/common.h
+++ b/spgemm-blocks/common.h
@@ -180,6 +180,9 @@ void setRowOffsets(CSR<IT, NT> &C, IT *threadsNvals, IT rowBeginIdx, IT rowEndId
 
 template<class IT, class NT>
 void copyValuesToC(CSR<IT, NT> &C, IT rowBeginIdx, IT *colIdsLocal, NT *valuesLocal, IT threadNvals) {
+    // without rows of its own, rowBeginIdx is a row of another thread
+    if (threadNvals == 0) { return; }
+
     copy(colIdsLocal, colIdsLocal + threadNvals, C.colids + C.rowptr[rowBeginIdx]);
     copy(valuesLocal, valuesLocal + threadNvals, C.values + C.rowptr[rowBeginIdx]);
 }
diff --git a/spgemm-blocks/inner/MaskedInnerSpGEMM.h b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
index 2009805..b5100a4 100644
--- a/spgemm-blocks/inner/MaskedInnerSpGEMM.h
+++ b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
@@ -184,8 +184,10 @@ void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
         setRowOffsets(R, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
 
         // Numeric phase
-        IT *currColId = &R.colids[R.rowptr[rowBeginIdx]];
-        NT *currValue = &R.values[R.rowptr[rowBeginIdx]];
+        // without rows of its own, rowBeginIdx is a row of another thread
+        const IT offset = rowBeginIdx < rowEndIdx ? R.rowptr[rowBeginIdx] : R.nnz;
+        IT *currColId = R.colids + offset;
+        NT *currValue = R.values + offset;
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (workPerRow[row] == 0) {
                 rowNvals[row] = 0;
diff --git a/spgemm-blocks/masked-spgemm-inner.h b/spgemm-blocks/masked-spgemm-inner.h
index d7e8148..c763059 100644
--- a/spgemm-blocks/masked-spgemm-inner.h
+++ b/spgemm-blocks/masked-spgemm-inner.h
@@ -129,8 +129,10 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
         setRowOffsets(R, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
 
         // Numeric phase
-        IT *currColId = &R.colids[R.rowptr[rowBeginIdx]];
-        NT *currValue = &R.values[R.rowptr[rowBeginIdx]];
+        // without rows of its own, rowBeginIdx is a row of another thread
+        const IT offset = rowBeginIdx < rowEndIdx ? R.rowptr[rowBeginIdx] : R.nnz;
+        IT *currColId = R.colids + offset;
+        NT *currValue = R.values + offset;
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (workPerRow[row] == 0) {
                 rowNvals[row] = 0;
diff --git a/spgemm-blocks/masked-spgemm.h b/spgemm-blocks/masked-spgemm.h
index 9a0a9a1..6430418 100644
--- a/spgemm-blocks/masked-spgemm.h
+++ b/spgemm-blocks/masked-spgemm.h
@@ -169,8 +169,10 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 
         // Numeric phase
         alg.getNumericAccumulator().setBuffer(buffer, bufferSize, dirty);
-        IT *currColId = &R.colids[R.rowptr[rowBeginIdx]];
-        NT *currValue = &R.values[R.rowptr[rowBeginIdx]];
+        // without rows of its own, rowBeginIdx is a row of another thread
+        const IT offset = rowBeginIdx < rowEndIdx ? R.rowptr[rowBeginIdx] : R.nnz;
+        IT *currColId = R.colids + offset;
+        NT *currValue = R.values + offset;
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (rowNvals[row] == 0) { continue; }
             alg.numericRow(A, B, M, multop, addop, row, currColId, currValue, rowNvals[row]);
-- 
2.43.0


From 2a217381110d84c2d24895f15f19b79123172e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:29 +0000
Subject: [PATCH 42/63] fix: the number of threads is stored by one thread

All threads of the region wrote the same variable without synchronisation (a data race).
---
 heap_mult.h      | 1 +
 inner_mult.h     | 1 +
 mask_hash_mult.h | 1 +
 utility.h        | 5 ++++-
 4 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/heap_mult.h b/heap_mult.h
index f7a1ef0..7804d19 100644
--- a/heap_mult.h
+++ b/heap_mult.h
@@ -49,6 +49,7 @@ void HeapSpGEMM(const CSC<IT,NT> & A, const CSC<IT,NT> & B, CSC<IT,NT> & C, Mult
     int numThreads;
 #pragma omp parallel
     {
+#pragma omp single
         numThreads = omp_get_num_threads();
     }
 
diff --git a/inner_mult.h b/inner_mult.h
index 37a99d4..9f7379a 100644
--- a/inner_mult.h
+++ b/inner_mult.h
@@ -68,6 +68,7 @@ innerSpGEMM_nohash(const CSR<IT,NT> & A, const CSC<IT,NT> & B, CSR<IT,NT> & C_fi
     IT numThreads;
     #pragma omp parallel num_threads(threadCount)
     {
+        #pragma omp single
         numThreads = omp_get_num_threads();
     }
 
diff --git a/mask_hash_mult.h b/mask_hash_mult.h
index 02559b1..92fbb3b 100644
--- a/mask_hash_mult.h
+++ b/mask_hash_mult.h
@@ -51,6 +51,7 @@ mxm_hash_mask
     int numThreads; 
     #pragma omp parallel num_threads(threadCount)
     {
+        #pragma omp single
         numThreads = omp_get_num_threads();
     }
 
diff --git a/utility.h b/utility.h
index 6630a80..7e6ec47 100644
--- a/utility.h
+++ b/utility.h
@@ -208,7 +208,10 @@ template <typename T> void scan(T *in, T *out, T N) {
   } else {
     int tnum = 1;
 #pragma omp parallel
-    { tnum = omp_get_num_threads(); }
+    {
+#pragma omp single
+      tnum = omp_get_num_threads();
+    }
     T each_n = N / tnum;
     T *partial_sum = my_malloc<T>(tnum);
 #pragma omp parallel
-- 
2.43.0


From 985d32061e52163fd105d8d730fc7a4004b6a101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:59 +0000
Subject: [PATCH 43/63] fix: work totals no longer overflow 32-bit index types

With int indices the total number of multiplications (or the inner-product work) of
a product easily exceeds 2^31.  The totals and their prefix sums were kept in the index
type, wrapped around, and distributeWork() then gave some rows to two threads and others
to none.
---
 spgemm-blocks/common.h                  | 30 ++++++++++++-------------
 spgemm-blocks/inner/MaskedInnerSpGEMM.h | 12 +++++-----
 spgemm-blocks/masked-spgemm-inner.h     | 12 +++++-----
 spgemm-blocks/masked-spgemm-poly.h      |  4 ++--
 spgemm-blocks/masked-spgemm-prof.h      |  4 ++--
 spgemm-blocks/masked-spgemm.h           | 12 +++++-----
 spgemm-blocks/scan.h                    | 14 ++++++------
 7 files changed, 44 insertions(+), 44 deletions(-)

diff --git a/spgemm-blocks/common.h b/spgemm-blocks/common.h
index 5113896..d907b0e 100644
--- a/spgemm-blocks/common.h
+++ b/spgemm-blocks/common.h
@@ -21,8 +21,8 @@ void verifyInputs(const AT<IT, NT> &A, const BT<IT, NT> &B, const CT<IT, NT> &C,
 }
 
 template<typename IT, typename NT>
-IT calculateMultOps(const CSR<IT, NT> &A, const CSR<IT, NT> &B, int numThreads = 0) {
-    IT nops = 0; // total multiplications needed to generate C
+size_t calculateMultOps(const CSR<IT, NT> &A, const CSR<IT, NT> &B, int numThreads = 0) {
+    size_t nops = 0; // total multiplications needed to generate C
 
     if (numThreads == 0) {
         numThreads = omp_get_max_threads();
@@ -30,7 +30,7 @@ IT calculateMultOps(const CSR<IT, NT> &A, const CSR<IT, NT> &B, int numThreads =
 
     #pragma omp parallel for reduction(+:nops) num_threads(numThreads)
     for (IT i = 0; i < A.rows; ++i) {
-        IT nopsRow = 0;
+        size_t nopsRow = 0;
         for (IT j = A.rowptr[i]; j < A.rowptr[i + 1]; ++j) {
             IT inner = A.colids[j];
             IT npins = B.rowptr[inner + 1] - B.rowptr[inner];
@@ -43,8 +43,8 @@ IT calculateMultOps(const CSR<IT, NT> &A, const CSR<IT, NT> &B, int numThreads =
 }
 
 template<typename IT, typename NT>
-IT calculateFlops(const CSR<IT, NT> &A, const CSR<IT, NT> &B, IT *flopsPerRow, int numThreads) {
-    IT flops = 0; // total flop (multiplication) needed to generate C
+size_t calculateFlops(const CSR<IT, NT> &A, const CSR<IT, NT> &B, IT *flopsPerRow, int numThreads) {
+    size_t flops = 0; // total flop (multiplication) needed to generate C
 
 #pragma omp parallel for reduction(+:flops) num_threads(numThreads)
     for (IT i = 0; i < A.rows; ++i) {
@@ -62,8 +62,8 @@ IT calculateFlops(const CSR<IT, NT> &A, const CSR<IT, NT> &B, IT *flopsPerRow, i
 }
 
 template<typename IT, typename NT>
-IT calculateFlops(const CSR<IT, NT> &A, const CSR<IT, NT> &B, const CSR<IT, NT> &M, IT *flopsPerRow, int numThreads) {
-    IT flops = 0; // total flop (multiplication) needed to generate C
+size_t calculateFlops(const CSR<IT, NT> &A, const CSR<IT, NT> &B, const CSR<IT, NT> &M, IT *flopsPerRow, int numThreads) {
+    size_t flops = 0; // total flop (multiplication) needed to generate C
 
 #pragma omp parallel for reduction(+:flops) num_threads(numThreads)
     for (IT i = 0; i < A.rows; ++i) {
@@ -83,16 +83,16 @@ IT calculateFlops(const CSR<IT, NT> &A, const CSR<IT, NT> &B, const CSR<IT, NT>
 }
 
 template<typename IT, typename NT>
-IT calculateWork(const CSR<IT, NT> &A, const CSC<IT, NT> &B, const CSR<IT, NT> &M, IT *workPerRow, int numThreads) {
-    IT work = 0;
+size_t calculateWork(const CSR<IT, NT> &A, const CSC<IT, NT> &B, const CSR<IT, NT> &M, size_t *workPerRow, int numThreads) {
+    size_t work = 0;
 
 #pragma omp parallel for reduction(+:work) num_threads(numThreads)
     for (IT i = 0; i < M.rows; ++i) {
-        IT workRow = 0;
+        size_t workRow = 0;
         for (IT j = M.rowptr[i]; j < M.rowptr[i + 1]; ++j) {
             IT lenA = A.rowptr[i + 1] - A.rowptr[i];
             IT lenB = B.colptr[M.colids[j] + 1] - B.colptr[M.colids[j]];
-            if (lenA != 0 && lenB != 0) { workRow += lenA + lenB; }
+            if (lenA != 0 && lenB != 0) { workRow += size_t(lenA) + size_t(lenB); }
         }
         workPerRow[i] = workRow;
         work += workRow;
@@ -103,8 +103,8 @@ IT calculateWork(const CSR<IT, NT> &A, const CSC<IT, NT> &B, const CSR<IT, NT> &
 
 
 template<class IT>
-std::tuple<IT, IT> distributeWork(IT totalWork, IT *accumWorkPerRow, IT nrows, int numThreads, int thisThread) {
-    IT workPerThread = totalWork / numThreads;
+std::tuple<IT, IT> distributeWork(size_t totalWork, const size_t *accumWorkPerRow, IT nrows, int numThreads, int thisThread) {
+    size_t workPerThread = totalWork / numThreads;
 
     // @formatter:off
     IT rowBegin = thisThread != 0              ? (lower_bound(accumWorkPerRow, accumWorkPerRow + nrows, workPerThread * thisThread))       - accumWorkPerRow : 0;
@@ -125,9 +125,9 @@ IT estimateResultSize(IT rowBeginIdx, IT rowEndIdx, IT *flopsPerRow,
 }
 
 template<bool complemented, bool calcUpperBoundSizeC, bool calcMaxRowSizeA, bool calcMaxRowSizeM, bool calcMaxRowFlops, class IT, class NT>
-std::tuple<IT, IT, IT, IT> scanInputs(IT rowBeginIdx, IT rowEndIdx, IT *flopsPerRow,
+std::tuple<size_t, IT, IT, IT> scanInputs(IT rowBeginIdx, IT rowEndIdx, IT *flopsPerRow,
                                   const CSR<IT, NT> &A, const CSR<IT, NT> &B, const CSR<IT, NT> &M) {
-    IT sizeC = 0;
+    size_t sizeC = 0;
     IT maxRowSizeM = 0;
     IT maxRowSizeA = 0;
     IT maxRowFlops = 0;
diff --git a/spgemm-blocks/inner/MaskedInnerSpGEMM.h b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
index b5100a4..d5a1143 100644
--- a/spgemm-blocks/inner/MaskedInnerSpGEMM.h
+++ b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
@@ -18,11 +18,11 @@ void MaskedSpGEMM1pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
     verifyInputs(A, B, C, M);
 
     // Estimate work
-    IT *workPerRow = my_malloc<IT>(M.rows, false);
-    IT work = calculateWork(A, B, M, workPerRow, numThreads);
+    size_t *workPerRow = my_malloc<size_t>(M.rows, false);
+    size_t work = calculateWork(A, B, M, workPerRow, numThreads);
 
     // Calculate cumulative work
-    IT *cumulativeWork = my_malloc<IT>(M.rows, false);
+    size_t *cumulativeWork = my_malloc<size_t>(M.rows, false);
     exclusiveScan(workPerRow, M.rows, cumulativeWork, numThreads);
 
     // Allocate memory for row sizes
@@ -118,11 +118,11 @@ void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
     verifyInputs(A, B, C, M);
 
     // Estimate work
-    IT *workPerRow = my_malloc<IT>(M.rows, false);
-    IT work = calculateWork(A, B, M, workPerRow, numThreads);
+    size_t *workPerRow = my_malloc<size_t>(M.rows, false);
+    size_t work = calculateWork(A, B, M, workPerRow, numThreads);
 
     // Calculate cumulative work
-    IT *cumulativeWork = my_malloc<IT>(M.rows, false);
+    size_t *cumulativeWork = my_malloc<size_t>(M.rows, false);
     exclusiveScan(workPerRow, M.rows, cumulativeWork, numThreads);
 
     // Allocate memory for row sizes
diff --git a/spgemm-blocks/masked-spgemm-inner.h b/spgemm-blocks/masked-spgemm-inner.h
index c763059..e8e7e23 100644
--- a/spgemm-blocks/masked-spgemm-inner.h
+++ b/spgemm-blocks/masked-spgemm-inner.h
@@ -14,11 +14,11 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
     verifyInputs(A, B, C, M);
 
     // Estimate work
-    IT *workPerRow = my_malloc<IT>(M.rows, false);
-    IT work = calculateWork(A, B, M, workPerRow, numThreads);
+    size_t *workPerRow = my_malloc<size_t>(M.rows, false);
+    size_t work = calculateWork(A, B, M, workPerRow, numThreads);
 
     // Calculate cumulative work
-    IT *cumulativeWork = my_malloc<IT>(M.rows, false);
+    size_t *cumulativeWork = my_malloc<size_t>(M.rows, false);
     exclusiveScan(workPerRow, M.rows, cumulativeWork, numThreads);
 
     // Allocate memory for row sizes
@@ -85,11 +85,11 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
     verifyInputs(A, B, C, M);
 
     // Estimate work
-    IT *workPerRow = my_malloc<IT>(M.rows, false);
-    IT work = calculateWork(A, B, M, workPerRow, numThreads);
+    size_t *workPerRow = my_malloc<size_t>(M.rows, false);
+    size_t work = calculateWork(A, B, M, workPerRow, numThreads);
 
     // Calculate cumulative work
-    IT *cumulativeWork = my_malloc<IT>(M.rows, false);
+    size_t *cumulativeWork = my_malloc<size_t>(M.rows, false);
     exclusiveScan(workPerRow, M.rows, cumulativeWork, numThreads);
 
     // Allocate memory for row sizes
diff --git a/spgemm-blocks/masked-spgemm-poly.h b/spgemm-blocks/masked-spgemm-poly.h
index 8443cf1..500186b 100644
--- a/spgemm-blocks/masked-spgemm-poly.h
+++ b/spgemm-blocks/masked-spgemm-poly.h
@@ -11,10 +11,10 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 
     // Estimate work
     IT *flopsPerRow = my_malloc<IT>(A.rows, false);
-    IT flops = calculateFlops(A, B, M, flopsPerRow, numThreads);
+    size_t flops = calculateFlops(A, B, M, flopsPerRow, numThreads);
 
     // Calculate cumulative work
-    IT *cumulativeWork = my_malloc<IT>(A.rows, false);
+    size_t *cumulativeWork = my_malloc<size_t>(A.rows, false);
     exclusiveScan(flopsPerRow, A.rows, cumulativeWork, numThreads);
 
     // Allocate memory for row sizes
diff --git a/spgemm-blocks/masked-spgemm-prof.h b/spgemm-blocks/masked-spgemm-prof.h
index 386321c..9ea8dbc 100644
--- a/spgemm-blocks/masked-spgemm-prof.h
+++ b/spgemm-blocks/masked-spgemm-prof.h
@@ -14,10 +14,10 @@ void MaskedSpGEMM1p_prof(long *rowTimes, const CSR<IT, NT> &A, const CSR<IT, NT>
 
     // Estimate work
     IT *flopsPerRow = my_malloc<IT>(A.rows, false);
-    IT flops = calculateFlops(A, B, flopsPerRow, numThreads);
+    size_t flops = calculateFlops(A, B, flopsPerRow, numThreads);
 
     // Calculate cumulative work
-    IT *cumulativeWork = my_malloc<IT>(A.rows, false);
+    size_t *cumulativeWork = my_malloc<size_t>(A.rows, false);
     exclusiveScan(flopsPerRow, A.rows, cumulativeWork, numThreads);
 
     // Allocate memory for row sizes
diff --git a/spgemm-blocks/masked-spgemm.h b/spgemm-blocks/masked-spgemm.h
index 6430418..bcedc4c 100644
--- a/spgemm-blocks/masked-spgemm.h
+++ b/spgemm-blocks/masked-spgemm.h
@@ -26,11 +26,11 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 
     // Estimate work
     IT *flopsPerRow = my_malloc<IT>(A.rows, false);
-    IT flops = Complemented ? calculateFlops(A, B, flopsPerRow, numThreads)
-                            : calculateFlops(A, B, M, flopsPerRow, numThreads);
+    size_t flops = Complemented ? calculateFlops(A, B, flopsPerRow, numThreads)
+                                : calculateFlops(A, B, M, flopsPerRow, numThreads);
 
     // Calculate cumulative work
-    IT *cumulativeWork = my_malloc<IT>(A.rows, false);
+    size_t *cumulativeWork = my_malloc<size_t>(A.rows, false);
     exclusiveScan(flopsPerRow, A.rows, cumulativeWork, numThreads);
 
     // Allocate memory for row sizes
@@ -110,11 +110,11 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 
     // Estimate work
     IT *flopsPerRow = my_malloc<IT>(A.rows, false);
-    IT flops = Complemented ? calculateFlops(A, B, flopsPerRow, numThreads)
-                            : calculateFlops(A, B, M, flopsPerRow, numThreads);
+    size_t flops = Complemented ? calculateFlops(A, B, flopsPerRow, numThreads)
+                                : calculateFlops(A, B, M, flopsPerRow, numThreads);
 
     // Calculate cumulative work
-    IT *cumulativeWork = my_malloc<IT>(A.rows, false);
+    size_t *cumulativeWork = my_malloc<size_t>(A.rows, false);
     exclusiveScan(flopsPerRow, A.rows, cumulativeWork, numThreads);
 
     // Allocate memory for row sizes
diff --git a/spgemm-blocks/scan.h b/spgemm-blocks/scan.h
index a57b935..e1cd86a 100644
--- a/spgemm-blocks/scan.h
+++ b/spgemm-blocks/scan.h
@@ -57,21 +57,21 @@ void inclusiveScan(const T *src, size_t size, T *dst, int numThreads) {
     my_free(partialSums);
 }
 
-template<class T>
-void exclusiveScan(const T *src, size_t size, T *dst, int numThreads, T *partialSums) {
+template<class T, class S>
+void exclusiveScan(const T *src, size_t size, S *dst, int numThreads, S *partialSums) {
     int threadId = omp_get_thread_num();
     size_t elemPerThread = size / numThreads;
     size_t start = threadId * elemPerThread;
     size_t end = threadId + 1 != numThreads ? (threadId + 1) * elemPerThread : size;
 
-    T localSum = 0;
+    S localSum = 0;
     for (size_t i = start; i < end; ++i) {
         localSum += src[i];
     }
     partialSums[threadId] = localSum;
 
 #pragma omp barrier
-    T offset = 0;
+    S offset = 0;
     for (size_t i = 0; i < threadId; ++i) {
         offset += partialSums[i];
     }
@@ -84,8 +84,8 @@ void exclusiveScan(const T *src, size_t size, T *dst, int numThreads, T *partial
     }
 }
 
-template<class T>
-void exclusiveScan(const T *src, size_t size, T *dst, int numThreads) {
+template<class T, class S>
+void exclusiveScan(const T *src, size_t size, S *dst, int numThreads) {
     if (size == 0) { return; }
 
     // If the input is small or if numThreads is 1, use sequential code
@@ -97,7 +97,7 @@ void exclusiveScan(const T *src, size_t size, T *dst, int numThreads) {
         return;
     }
 
-    T *partialSums = my_malloc<T>(numThreads, false);
+    S *partialSums = my_malloc<S>(numThreads, false);
 
 #pragma omp parallel num_threads(numThreads) default(none) shared(src, size, dst, numThreads, partialSums)
     {
-- 
2.43.0


From 55302b34466db42ff364d3c4bc62e60c9c25955b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:32 +0000
Subject: [PATCH 44/63] fix: BIN and HeapSpGEMM row splits no longer overflow
 32-bit index types

Both split the rows among the threads by a prefix sum of the multiplications per row that
was kept in the index type; with int indices it wrapps around at 2^31 multiplications,
after which rows were computed by several threads or by none.
---
 BIN.h               |  8 ++++----
 heap_mult_generic.h |  6 +++---
 utility.h           | 10 +++++-----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/BIN.h b/BIN.h
index 442c2f0..16220b6 100644
--- a/BIN.h
+++ b/BIN.h
@@ -87,7 +87,7 @@ inline void BIN<IT, NT>::set_intprod_num(const IT *arpt, const IT *acol, const I
 #pragma omp parallel num_threads(thread_num)
     {
         int i;
-        IT each_int_prod = 0;
+        long long int each_int_prod = 0;
 #pragma omp for
         for (i = 0; i < rows; ++i) {
             int j;
@@ -106,12 +106,12 @@ inline void BIN<IT, NT>::set_intprod_num(const IT *arpt, const IT *acol, const I
 template <class IT, class NT>
 inline void BIN<IT, NT>::set_rows_offset(const IT rows)
 {
-    IT *ps_row_nz = my_malloc<IT>(rows + 1);
+    long long int *ps_row_nz = my_malloc<long long int>(rows + 1);
 
     /* Prefix sum of #intermediate products */
     scan(row_nz, ps_row_nz, rows + 1);
 
-    IT average_intprod = (total_intprod + thread_num - 1) / thread_num;
+    long long int average_intprod = (total_intprod + thread_num - 1) / thread_num;
     // long long int average_intprod = total_intprod / thread_num;
 
     /* Search end point of each range */
@@ -124,7 +124,7 @@ inline void BIN<IT, NT>::set_rows_offset(const IT rows)
         // if (tid == thread_num - 1) rows_offset[tid + 1] = rows;
     }
     rows_offset[thread_num] = rows;
-    my_free<IT>(ps_row_nz);
+    my_free<long long int>(ps_row_nz);
 }
 
 template <class IT, class NT>
diff --git a/heap_mult_generic.h b/heap_mult_generic.h
index 9405b4c..ff198f5 100644
--- a/heap_mult_generic.h
+++ b/heap_mult_generic.h
@@ -736,9 +736,9 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
     IT *maxnnzc = my_malloc<IT>(A.rows);
     long long int flops = tmp::getFlop(A, B, maxnnzc) / 2;
 
-    IT flopsPerThread = flops / numThreads; // amount of work that will be assigned to each thread
+    long long int flopsPerThread = flops / numThreads; // amount of work that will be assigned to each thread
 
-    IT *rowStart = my_malloc<IT>(A.rows + 1); //start index in the global array for storing ith column of C
+    long long int *rowStart = my_malloc<long long int>(A.rows + 1); // work before each row
     IT *rowNvals = my_malloc<IT>(A.rows); // number of nonzeros in each each column in C
 
     rowStart[0] = 0;
@@ -812,7 +812,7 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
     }
 
     my_free<IT>(maxnnzc);
-    my_free<IT>(rowStart);
+    my_free<long long int>(rowStart);
     my_free<IT>(rowNvals);
     my_free<IT>(threadsNvals);
 }
diff --git a/utility.h b/utility.h
index 7e6ec47..f2bde9a 100644
--- a/utility.h
+++ b/utility.h
@@ -191,7 +191,7 @@ inline void my_free(T *a, Ts *...as) {
 }
 
 // Prefix sum (Sequential)
-template <typename T> void seq_scan(T *in, T *out, T N) {
+template <typename T, typename S> void seq_scan(T *in, S *out, T N) {
   if (N == 0)
     return;
   out[0] = 0;
@@ -201,7 +201,7 @@ template <typename T> void seq_scan(T *in, T *out, T N) {
 }
 
 // Prefix sum (Thread parallel)
-template <typename T> void scan(T *in, T *out, T N) {
+template <typename T, typename S> void scan(T *in, S *out, T N) {
   // if the array is comparatively small, use sequential scan instead
   if (N < (1 << 17)) {
     seq_scan(in, out, N);
@@ -213,7 +213,7 @@ template <typename T> void scan(T *in, T *out, T N) {
       tnum = omp_get_num_threads();
     }
     T each_n = N / tnum;
-    T *partial_sum = my_malloc<T>(tnum);
+    S *partial_sum = my_malloc<S>(tnum);
 #pragma omp parallel
     {
       // thead level prefix summing
@@ -229,7 +229,7 @@ template <typename T> void scan(T *in, T *out, T N) {
       if (tid < tnum - 1) { partial_sum[tid] = out[end - 1] + in[end - 1]; }
 #pragma omp barrier
 
-      T offset = 0;
+      S offset = 0;
       for (int i = 0; i < tid; ++i) {
         offset += partial_sum[i];
       }
@@ -237,7 +237,7 @@ template <typename T> void scan(T *in, T *out, T N) {
         out[i] += offset;
       }
     }
-    my_free<T>(partial_sum);
+    my_free<S>(partial_sum);
   }
 }
 
-- 
2.43.0


From 12296694abf2abef60585f7f38fdd9fc070a8dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 45/63] fix: get_flop multiplies in the wide type it returns

The product of a column and a row count (65536 * 65536, say) overflowed the index type
before it was added to the 64-bit total.
---
 multiply.h    | 2 +-
 outer_mult.h  | 2 +-
 outer_mult2.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/multiply.h b/multiply.h
index e077b8c..ef88022 100644
--- a/multiply.h
+++ b/multiply.h
@@ -144,7 +144,7 @@ long long int get_flop(const CSC<IT, NT> &A, const CSR<IT, NT> &B)
     {
         IT colnnz = A.colptr[i + 1] - A.colptr[i];
         IT rownnz = B.rowptr[i + 1] - B.rowptr[i];
-        flops += (colnnz * rownnz);
+        flops += (long long int)colnnz * rownnz;
     }
     return (flops * 2);
 }
diff --git a/outer_mult.h b/outer_mult.h
index 78f290d..126ec38 100644
--- a/outer_mult.h
+++ b/outer_mult.h
@@ -40,7 +40,7 @@ uint64_t getFlop(const CSC<IT, NT>& A, const CSR<IT, NT>& B)
     {
         IT colnnz = A.colptr[i + 1] - A.colptr[i];
         IT rownnz = B.rowptr[i + 1] - B.rowptr[i];
-        flop += (colnnz * rownnz);
+        flop += uint64_t(colnnz) * rownnz;
     }
     return flop;
 }
diff --git a/outer_mult2.h b/outer_mult2.h
index b868a88..1091c43 100644
--- a/outer_mult2.h
+++ b/outer_mult2.h
@@ -37,7 +37,7 @@ uint64_t getFlop(const CSC<IT, NT>& A, const CSR<IT, NT>& B)
     {
         IT colnnz = A.colptr[i + 1] - A.colptr[i];
         IT rownnz = B.rowptr[i + 1] - B.rowptr[i];
-        flop += (colnnz * rownnz);
+        flop += uint64_t(colnnz) * rownnz;
     }
     return flop;
 }
-- 
2.43.0


From 364ffd91836b257b575a6b042d97fa5bc3908176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:54 +0000
Subject: [PATCH 46/63] fix: heap row-size estimate is summed in the index type

std::accumulate with an int start value truncates the estimate to 32 bits when the index
type is wider, and the buffers allocated from it are too small.
---
 heap_mult_generic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heap_mult_generic.h b/heap_mult_generic.h
index ff198f5..bfac6bb 100644
--- a/heap_mult_generic.h
+++ b/heap_mult_generic.h
@@ -65,7 +65,7 @@ struct HeapBase {
     static IT
     estimateResultSize(IT rowBeginIdx, IT rowEndIdx, IT *maxnnzc,
                        const CSR<IT, NT> &A, const CSR<IT, NT> &B, const CSR<IT, NT> &M) {
-        return std::accumulate(maxnnzc + rowBeginIdx, maxnnzc + rowEndIdx, 0);
+        return std::accumulate(maxnnzc + rowBeginIdx, maxnnzc + rowEndIdx, IT(0));
     }
 
     template<class IT, class NT>
-- 
2.43.0


From b711b0849eed8fec2f60f1b443b2abf09af1869b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:54 +0000
Subject: [PATCH 47/63] fix: GTgraph heapSort builds its heap inside the array

siftDown takes the index of the last element; heapify passed the length, so
keys[n] (and the auxiliary arrays) were compared and swapped, and with an odd
length the last parent was left out.
---
 GTgraph/R-MAT/utils.c  | 4 ++--
 GTgraph/SSCA2/utils.c  | 4 ++--
 GTgraph/random/utils.c | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/GTgraph/R-MAT/utils.c b/GTgraph/R-MAT/utils.c
index 93a4928..ed62588 100644
--- a/GTgraph/R-MAT/utils.c
+++ b/GTgraph/R-MAT/utils.c
@@ -175,8 +175,8 @@ void heapSort(LONG_T* keys, LONG_T* auxKey1, WEIGHT_T* auxKey2, LONG_T n)
 {
 	LONG_T i;
 
-	for (i = (n/2)-1; i >= 0; i--)
-		siftDown(keys, auxKey1, auxKey2, i, n);
+	for (i = (n-1)/2; i >= 0; i--)
+		siftDown(keys, auxKey1, auxKey2, i, n-1);
 
 	for (i = n-1; i >= 1; i--) {
 		swapL(&keys[0], &keys[i]);
diff --git a/GTgraph/SSCA2/utils.c b/GTgraph/SSCA2/utils.c
index cf02a7a..f2153c3 100644
--- a/GTgraph/SSCA2/utils.c
+++ b/GTgraph/SSCA2/utils.c
@@ -177,8 +177,8 @@ void heapSort(LONG_T* keys, LONG_T* auxKey1, WEIGHT_T* auxKey2, LONG_T n)
 {
 	LONG_T i;
 
-	for (i = (n/2)-1; i >= 0; i--)
-		siftDown(keys, auxKey1, auxKey2, i, n);
+	for (i = (n-1)/2; i >= 0; i--)
+		siftDown(keys, auxKey1, auxKey2, i, n-1);
 
 	for (i = n-1; i >= 1; i--) {
 		swapL(&keys[0], &keys[i]);
diff --git a/GTgraph/random/utils.c b/GTgraph/random/utils.c
index a9cb33b..0a0523b 100644
--- a/GTgraph/random/utils.c
+++ b/GTgraph/random/utils.c
@@ -173,8 +173,8 @@ void heapSort(LONG_T* keys, LONG_T* auxKey1, WEIGHT_T* auxKey2, LONG_T n)
 {
 	LONG_T i;
 
-	for (i = (n/2)-1; i >= 0; i--)
-		siftDown(keys, auxKey1, auxKey2, i, n);
+	for (i = (n-1)/2; i >= 0; i--)
+		siftDown(keys, auxKey1, auxKey2, i, n-1);
 
 	for (i = n-1; i >= 1; i--) {
 		swapL(&keys[0], &keys[i]);
-- 
2.43.0


From d1930415ad5c1e60a000b1ccadba9a8c32e5fa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:54 +0000
Subject: [PATCH 48/63] fix: R-MAT graphGen leaves the quadrant probabilities
 as it found them

The probabilities are varied level by level in the global variables; the last
edge's values stayed behind, so a second call (sample_common.hpp makes one)
started from drifted parameters.
---
 GTgraph/R-MAT/graph.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GTgraph/R-MAT/graph.c b/GTgraph/R-MAT/graph.c
index e0a7f8d..954431e 100644
--- a/GTgraph/R-MAT/graph.c
+++ b/GTgraph/R-MAT/graph.c
@@ -64,6 +64,7 @@ void graphGen(graph* g)
 			
 		}
 
+		a = a0; b = b0; c = c0; d = d0;
 		fclose(outfp);
                 fprintf(stderr, "done\n");
 
@@ -105,6 +106,7 @@ void graphGen(graph* g)
 
         }
 
+	a = a0; b = b0; c = c0; d = d0;
 	numEdges = m;
 	fprintf(stderr, "done\n");
 	free(stream1);
-- 
2.43.0


From 8ab8e4d419dad7a12f90d2e1a1e6523d21a851f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:54 +0000
Subject: [PATCH 49/63] fix: R-MAT parameter b is varied in both directions

Both branches increased b, which grew at every level at the expense of the
others.
---
 GTgraph/R-MAT/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GTgraph/R-MAT/graph.c b/GTgraph/R-MAT/graph.c
index 954431e..fa5c348 100644
--- a/GTgraph/R-MAT/graph.c
+++ b/GTgraph/R-MAT/graph.c
@@ -198,7 +198,7 @@ void varyParams(double* a, double* b, double* c, double* d) {
 	if (sprng(stream4) > 0.5)
                 *b += *b * v * sprng(stream3);
         else 
-                *b += *b * v * sprng(stream3);
+                *b -= *b * v * sprng(stream3);
 
 	if (sprng(stream4) > 0.5)
                 *c += *c * v * sprng(stream3);
-- 
2.43.0


From 6c77c964b953038a6efcec510eedabbf3e74ecfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:54 +0000
Subject: [PATCH 50/63] fix: GTgraph weights stay in [MIN_WEIGHT, MAX_WEIGHT)
 with a negative minimum

The cast applied to the width instead of the scaled answer, so the sum was
truncated towards zero: MAX_WEIGHT came out and MIN_WEIGHT did not.
---
 GTgraph/R-MAT/graph.c  | 6 +++---
 GTgraph/SSCA2/graph.c  | 4 ++--
 GTgraph/random/graph.c | 8 ++++----
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/GTgraph/R-MAT/graph.c b/GTgraph/R-MAT/graph.c
index fa5c348..8917ca1 100644
--- a/GTgraph/R-MAT/graph.c
+++ b/GTgraph/R-MAT/graph.c
@@ -59,7 +59,7 @@ void graphGen(graph* g)
 				continue;
 			}
 
-			w = MIN_WEIGHT + (WEIGHT_T) (MAX_WEIGHT - MIN_WEIGHT) * sprng(stream2);
+			w = MIN_WEIGHT + (WEIGHT_T) ((MAX_WEIGHT - MIN_WEIGHT) * sprng(stream2));
                         fprintf(outfp, "a %ld %ld %ld\n", u, v, w);
 			
 		}
@@ -120,8 +120,8 @@ void graphGen(graph* g)
         weights = (WEIGHT_T *) malloc(numEdges*sizeof(WEIGHT_T));
 
         for (i=0; i<numEdges; i++) {
-                weights[i] = MIN_WEIGHT + (WEIGHT_T) (MAX_WEIGHT - MIN_WEIGHT) \
-                        * sprng(stream2);
+                weights[i] = MIN_WEIGHT + (WEIGHT_T) ((MAX_WEIGHT - MIN_WEIGHT) \
+                        * sprng(stream2));
         }
 
         fprintf(stderr, "done\n");
diff --git a/GTgraph/SSCA2/graph.c b/GTgraph/SSCA2/graph.c
index 7dbf877..19306de 100644
--- a/GTgraph/SSCA2/graph.c
+++ b/GTgraph/SSCA2/graph.c
@@ -260,8 +260,8 @@ void graphGen(graph* g)
         weights = (WEIGHT_T *) malloc(numEdges*sizeof(WEIGHT_T));
 
         for (i=0; i<numEdges; i++) {
-                weights[i] = MinWeight + (WEIGHT_T) (MaxWeight - MinWeight) \
-                        *sprng(stream);
+                weights[i] = MinWeight + (WEIGHT_T) ((MaxWeight - MinWeight) \
+                        *sprng(stream));
         }
 
         fprintf(stderr, "done\n");
diff --git a/GTgraph/random/graph.c b/GTgraph/random/graph.c
index 5d83caa..3023d05 100644
--- a/GTgraph/random/graph.c
+++ b/GTgraph/random/graph.c
@@ -53,7 +53,7 @@ void graphGen(graph* g)
 
 					if (p > sprng(stream1)) {
 						w = MIN_WEIGHT + (WEIGHT_T) \
-						   (MAX_WEIGHT - MIN_WEIGHT) * sprng(stream2);
+						   ((MAX_WEIGHT - MIN_WEIGHT) * sprng(stream2));
 						/* Create edge */
 						fprintf(outfp, "a %ld %ld %ld\n", i+1, j+1, w);
 						numEdges++;
@@ -81,7 +81,7 @@ void graphGen(graph* g)
 					continue;
 				}
 
-				w = MIN_WEIGHT + (WEIGHT_T) (MAX_WEIGHT - MIN_WEIGHT) * sprng(stream2);
+				w = MIN_WEIGHT + (WEIGHT_T) ((MAX_WEIGHT - MIN_WEIGHT) * sprng(stream2));
 
                                 /* Create edge */
                                 fprintf(outfp, "a %ld %ld %ld\n", u+1, v+1, w);
@@ -169,8 +169,8 @@ void graphGen(graph* g)
         weights = (WEIGHT_T *) malloc(numEdges*sizeof(WEIGHT_T));
 
         for (i=0; i<numEdges; i++) {
-                weights[i] = MIN_WEIGHT + (WEIGHT_T) (MAX_WEIGHT - MIN_WEIGHT) \
-                        * sprng(stream2);
+                weights[i] = MIN_WEIGHT + (WEIGHT_T) ((MAX_WEIGHT - MIN_WEIGHT) \
+                        * sprng(stream2));
         }
 
         fprintf(stderr, "done\n");
-- 
2.43.0


From 155b105431a63f4eff6b96c5c7619e3843435a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:54 +0000
Subject: [PATCH 51/63] fix: random G(n,p) grows its edge list when the
 estimate is exceeded

The arrays hold 1.2 times the expected number of edges; small graphs exceed
that with substantial probability and wrote past the end.
---
 GTgraph/random/graph.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/GTgraph/random/graph.c b/GTgraph/random/graph.c
index 3023d05..4d4e6ea 100644
--- a/GTgraph/random/graph.c
+++ b/GTgraph/random/graph.c
@@ -124,6 +124,12 @@ void graphGen(graph* g)
 
                                 if (p > sprng(stream1)) {
 
+					if (edgeNum == estNumEdges) {
+						estNumEdges = 2*estNumEdges + 16;
+						startVertex = (LONG_T *) realloc(startVertex, estNumEdges * sizeof(LONG_T));
+						endVertex   = (LONG_T *) realloc(endVertex, estNumEdges * sizeof(LONG_T));
+					}
+
 					startVertex[edgeNum] = i; 
 					endVertex[edgeNum]   = j;
 					edgeNum++;
-- 
2.43.0


From 1a7837b57ccd9049058a2836de694666a9c83ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:54 +0000
Subject: [PATCH 52/63] fix: random and SSCA2 close the files they update or
 read

updateEdgeVal also switched between reading and writing without repositioning.
---
 GTgraph/SSCA2/init.c   | 2 ++
 GTgraph/random/init.c  | 2 ++
 GTgraph/random/utils.c | 4 ++++
 3 files changed, 8 insertions(+)

diff --git a/GTgraph/SSCA2/init.c b/GTgraph/SSCA2/init.c
index 49df9c4..092aa96 100644
--- a/GTgraph/SSCA2/init.c
+++ b/GTgraph/SSCA2/init.c
@@ -168,4 +168,6 @@ void getParamsFromFile(char* configfile) {
 		}
 	}
 
+	fclose(fp);
+
 }
diff --git a/GTgraph/random/init.c b/GTgraph/random/init.c
index 1c2b08c..a5cf19e 100644
--- a/GTgraph/random/init.c
+++ b/GTgraph/random/init.c
@@ -204,4 +204,6 @@ void getParamsFromFile(char* configfile) {
 		}
 	}
 
+	fclose(fp);
+
 }
diff --git a/GTgraph/random/utils.c b/GTgraph/random/utils.c
index 0a0523b..004ffcf 100644
--- a/GTgraph/random/utils.c
+++ b/GTgraph/random/utils.c
@@ -238,11 +238,15 @@ void updateEdgeVal(char* FILENAME, LONG_T numEdges) {
 	
 	fgets(line, sizeof(line), outfp);
 	fgets(line, sizeof(line), outfp);
+	fseek(outfp, 0, SEEK_CUR);
 	fprintf(outfp, "c No. of directed edges	: %ld", numEdges);	 
+	fseek(outfp, 0, SEEK_CUR);
 	fgets(line, sizeof(line), outfp);
 	fgets(line, sizeof(line), outfp);
 	fgets(line, sizeof(line), outfp);
 	fgets(line, sizeof(line), outfp);
 	fgets(line, sizeof(line), outfp);
+	fseek(outfp, 0, SEEK_CUR);
 	fprintf(outfp, "p sp %ld %ld", n, numEdges);
+	fclose(outfp);
 }
-- 
2.43.0


From 4db6eea37be2c2f5161dc25d75338e8096cf9e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:54 +0000
Subject: [PATCH 53/63] fix: GTgraph-rmat keeps -o when it comes before -n or
 -m

The first -n or -m reset every parameter, the output file included.
---
 GTgraph/R-MAT/init.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/GTgraph/R-MAT/init.c b/GTgraph/R-MAT/init.c
index f631951..ea53804 100644
--- a/GTgraph/R-MAT/init.c
+++ b/GTgraph/R-MAT/init.c
@@ -57,7 +57,8 @@ void parseUserInput(int argc, char** argv) {
 				if (configfileSpecified)
 					break;
 				if (varSpecified == 0) {
-					getParams();
+					if (!outfileSpecified)
+						getParams();
 					varSpecified = 1;
 				}
 				n = atol(optarg);
@@ -69,11 +70,12 @@ void parseUserInput(int argc, char** argv) {
 				if (configfileSpecified)
 					break;
 				if (varSpecified == 0) {
-                                        getParams();
+                                        if (!outfileSpecified)
+                                        	getParams();
                                         varSpecified = 1;
                                 }
                                 m = atol(optarg);
-                                fprintf(stderr, "m is set to %ld\n", n);
+                                fprintf(stderr, "m is set to %ld\n", m);
                                 updateLog();
                                 break;
 	
-- 
2.43.0


From d77ca07550b86da946a5b948213deca2889b2d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:54 +0000
Subject: [PATCH 54/63] fix: GTgraph file names may be longer than 29
 characters

-o and -c were copied into 30 bytes without a check.
---
 GTgraph/R-MAT/globals.c  | 2 +-
 GTgraph/R-MAT/globals.h  | 2 +-
 GTgraph/R-MAT/init.c     | 8 ++++----
 GTgraph/SSCA2/globals.c  | 2 +-
 GTgraph/SSCA2/globals.h  | 2 +-
 GTgraph/SSCA2/init.c     | 8 ++++----
 GTgraph/random/globals.c | 2 +-
 GTgraph/random/globals.h | 2 +-
 GTgraph/random/init.c    | 8 ++++----
 9 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/GTgraph/R-MAT/globals.c b/GTgraph/R-MAT/globals.c
index 888b441..23234c9 100644
--- a/GTgraph/R-MAT/globals.c
+++ b/GTgraph/R-MAT/globals.c
@@ -21,5 +21,5 @@ int SORT_EDGELISTS;
 int SORT_TYPE;
 int WRITE_TO_FILE;
 
-char OUTFILE[30];
+char OUTFILE[FILENAME_MAX];
 char LOGFILE[30];
diff --git a/GTgraph/R-MAT/globals.h b/GTgraph/R-MAT/globals.h
index 68e0f64..9197316 100644
--- a/GTgraph/R-MAT/globals.h
+++ b/GTgraph/R-MAT/globals.h
@@ -41,7 +41,7 @@ extern int WRITE_TO_FILE;
 extern int STORE_IN_MEMORY;
 
 /* Default output file */ 
-extern char OUTFILE[30];
+extern char OUTFILE[FILENAME_MAX];
 
 /* Default log file, for printing auxiliary information */
 extern char LOGFILE[30];
diff --git a/GTgraph/R-MAT/init.c b/GTgraph/R-MAT/init.c
index ea53804..2234894 100644
--- a/GTgraph/R-MAT/init.c
+++ b/GTgraph/R-MAT/init.c
@@ -3,7 +3,7 @@
 
 void parseUserInput(int argc, char** argv) {
 	int c;
-	char configfile[30];
+	char configfile[FILENAME_MAX];
 	int outfileSpecified = 0;
 	int configfileSpecified = 0;
 	int varSpecified = 0;
@@ -32,7 +32,7 @@ void parseUserInput(int argc, char** argv) {
 					getParams();
 				}
 				WRITE_TO_FILE = 1;
-				strcpy(OUTFILE, optarg);
+				snprintf(OUTFILE, sizeof(OUTFILE), "%s", optarg);
 				fprintf(stderr, "Graph will be written to %s\n", OUTFILE);
 				updateLog();
 				break;
@@ -42,11 +42,11 @@ void parseUserInput(int argc, char** argv) {
 				configfileSpecified = 1;
 				if (!outfileSpecified) {
 					getParams();
-					strcpy(configfile, optarg);
+					snprintf(configfile, sizeof(configfile), "%s", optarg);
 					fprintf(stderr, "Reading config file %s\n", configfile);
 					getParamsFromFile(configfile);
 				} else {
-					strcpy(configfile, optarg);
+					snprintf(configfile, sizeof(configfile), "%s", optarg);
 					fprintf(stderr, "Updating parameters from config file %s\n", configfile);
 					getParamsFromFile(configfile);
 				}
diff --git a/GTgraph/SSCA2/globals.c b/GTgraph/SSCA2/globals.c
index 945c6d5..71037fe 100644
--- a/GTgraph/SSCA2/globals.c
+++ b/GTgraph/SSCA2/globals.c
@@ -12,5 +12,5 @@ double ProbIntercliqueEdges;
 int SORT_EDGELISTS;
 int SORT_TYPE;
 int WRITE_TO_FILE;
-char OUTFILE[30];
+char OUTFILE[FILENAME_MAX];
 char LOGFILE[30];
diff --git a/GTgraph/SSCA2/globals.h b/GTgraph/SSCA2/globals.h
index bf86908..4029ecc 100644
--- a/GTgraph/SSCA2/globals.h
+++ b/GTgraph/SSCA2/globals.h
@@ -51,7 +51,7 @@ extern int SORT_TYPE;
 extern int WRITE_TO_FILE;
 
 /* Default output file */ 
-extern char OUTFILE[30];
+extern char OUTFILE[FILENAME_MAX];
 
 /* Default log file, for printing auxiliary information */
 extern char LOGFILE[30];
diff --git a/GTgraph/SSCA2/init.c b/GTgraph/SSCA2/init.c
index 092aa96..831aadf 100644
--- a/GTgraph/SSCA2/init.c
+++ b/GTgraph/SSCA2/init.c
@@ -2,7 +2,7 @@
 
 void parseUserInput(int argc, char** argv) {
 	int c;
-	char configfile[30];
+	char configfile[FILENAME_MAX];
 	int outfileSpecified=0;
 	int configfileSpecified=0;
 	int scaleSpecified=0;	
@@ -46,7 +46,7 @@ void parseUserInput(int argc, char** argv) {
 					getParams();
 				}
 				WRITE_TO_FILE = 1;
-				strcpy(OUTFILE, optarg);
+				snprintf(OUTFILE, sizeof(OUTFILE), "%s", optarg);
 				fprintf(stderr, "Graph will be written to %s\n", OUTFILE);
 				updateLog();
 				
@@ -60,11 +60,11 @@ void parseUserInput(int argc, char** argv) {
 				if (!outfileSpecified) {
 					if (!scaleSpecified)
 						getParams();
-					strcpy(configfile, optarg);
+					snprintf(configfile, sizeof(configfile), "%s", optarg);
 					fprintf(stderr, "Reading config file %s\n", configfile);
 					getParamsFromFile(configfile);
 				} else {
-					strcpy(configfile, optarg);
+					snprintf(configfile, sizeof(configfile), "%s", optarg);
 					fprintf(stderr, "Updating parameters from config file %s\n", configfile);
 					getParamsFromFile(configfile);
 				}
diff --git a/GTgraph/random/globals.c b/GTgraph/random/globals.c
index d36271c..f1c36c0 100644
--- a/GTgraph/random/globals.c
+++ b/GTgraph/random/globals.c
@@ -18,5 +18,5 @@ int SORT_EDGELISTS;
 int SORT_TYPE;
 int WRITE_TO_FILE;
 
-char OUTFILE[30];
+char OUTFILE[FILENAME_MAX];
 char LOGFILE[30];
diff --git a/GTgraph/random/globals.h b/GTgraph/random/globals.h
index 96ef819..41f7680 100644
--- a/GTgraph/random/globals.h
+++ b/GTgraph/random/globals.h
@@ -45,7 +45,7 @@ extern int WRITE_TO_FILE;
 extern int STORE_IN_MEMORY;
 
 /* Default output file */ 
-extern char OUTFILE[30];
+extern char OUTFILE[FILENAME_MAX];
 
 /* Default log file, for printing auxiliary information */
 extern char LOGFILE[30];
diff --git a/GTgraph/random/init.c b/GTgraph/random/init.c
index a5cf19e..3097226 100644
--- a/GTgraph/random/init.c
+++ b/GTgraph/random/init.c
@@ -2,7 +2,7 @@
 
 void parseUserInput(int argc, char** argv) {
 	int c;
-	char configfile[30];
+	char configfile[FILENAME_MAX];
 	int outfileSpecified = 0;
 	int configfileSpecified = 0;
 	int typeSpecified = 0;
@@ -47,7 +47,7 @@ void parseUserInput(int argc, char** argv) {
 					getParams();
 				}
 				WRITE_TO_FILE = 1;
-				strcpy(OUTFILE, optarg);
+				snprintf(OUTFILE, sizeof(OUTFILE), "%s", optarg);
 				fprintf(stderr, "Graph will be written to %s\n", OUTFILE);
 				updateLog();
 				break;
@@ -57,11 +57,11 @@ void parseUserInput(int argc, char** argv) {
 				configfileSpecified = 1;
 				if (!outfileSpecified) {
 					getParams();
-					strcpy(configfile, optarg);
+					snprintf(configfile, sizeof(configfile), "%s", optarg);
 					fprintf(stderr, "Reading config file %s\n", configfile);
 					getParamsFromFile(configfile);
 				} else {
-					strcpy(configfile, optarg);
+					snprintf(configfile, sizeof(configfile), "%s", optarg);
 					fprintf(stderr, "Updating parameters from config file %s\n", configfile);
 					getParamsFromFile(configfile);
 				}
-- 
2.43.0


From e427b6180ebbfc71783aea4feb158962f9222b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:54 +0000
Subject: [PATCH 55/63] fix: SSCA2 reads ProbIntercliqueEdges from its config
 file

The shipped config and the documentation use this name; it was reported as an
unknown parameter and ignored.
---
 GTgraph/SSCA2/init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GTgraph/SSCA2/init.c b/GTgraph/SSCA2/init.c
index 831aadf..75c527b 100644
--- a/GTgraph/SSCA2/init.c
+++ b/GTgraph/SSCA2/init.c
@@ -153,7 +153,7 @@ void getParamsFromFile(char* configfile) {
 			MinWeight = (WEIGHT_T) val;
 		} else if (strcmp(var,"ProbUnidirectional")==0) {
 			ProbUnidirectional = (double) val;
-		} else if (strcmp(var,"ProbInterClEdges")==0) {
+		} else if ((strcmp(var,"ProbIntercliqueEdges")==0) || (strcmp(var,"ProbInterClEdges")==0)) {
 			ProbIntercliqueEdges = (double) val;
 		} else if (strcmp(var,"MaxParallelEdges")==0) {
 			MaxParallelEdges = (LONG_T) val;
-- 
2.43.0


From 0ec884cee29b1d9c371ba08849e8d700b3880f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:54 +0000
Subject: [PATCH 56/63] fix: SSCA2 scales of 31 and more do not overflow an int

TotVertices and MaxWeight are long, the shift was not.
---
 GTgraph/SSCA2/init.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/GTgraph/SSCA2/init.c b/GTgraph/SSCA2/init.c
index 75c527b..5e8b0b0 100644
--- a/GTgraph/SSCA2/init.c
+++ b/GTgraph/SSCA2/init.c
@@ -32,9 +32,9 @@ void parseUserInput(int argc, char** argv) {
 				}
 				SCALE = atol(optarg);
                                 fprintf(stderr, "Applying a SCALE value of %ld\n", SCALE);
-                                TotVertices = 1 << SCALE;
+                                TotVertices = (LONG_T) 1 << SCALE;
                                 MaxCliqueSize = (LONG_T) floor(pow(2, (double) (SCALE/3.0)));
-                                MaxWeight = 1 << SCALE;
+                                MaxWeight = (WEIGHT_T) 1 << SCALE;
                                 updateLog();
 				scaleSpecified = 1;
 				break;
@@ -105,9 +105,9 @@ void usage() {
 void getParams() {
 
 	SCALE = 20;
-	TotVertices = (1<<SCALE);
+	TotVertices = ((LONG_T) 1<<SCALE);
         MaxCliqueSize = (LONG_T) floor(pow(2, (double) (SCALE/3.0)));
-	MaxWeight = (1<<SCALE);
+	MaxWeight = ((WEIGHT_T) 1<<SCALE);
 	MinWeight = 0;
 	
 	ProbUnidirectional = 0.2;
@@ -140,9 +140,9 @@ void getParamsFromFile(char* configfile) {
 		if (*var == '#') continue;  /* comment */
 		else if (strcmp(var,"SCALE")==0) {
 			SCALE = (LONG_T) val;
-			TotVertices = (1<<SCALE);
+			TotVertices = ((LONG_T) 1<<SCALE);
 		       	MaxCliqueSize = (LONG_T) floor(pow(2, (double) (SCALE/3.0)));
-		        MaxWeight = (1<<SCALE);
+		        MaxWeight = ((WEIGHT_T) 1<<SCALE);
 		} else if (strcmp(var,"TotVertices")==0) {
 			TotVertices = (LONG_T) val;
 		} else if (strcmp(var,"MaxCliqueSize")==0) {
-- 
2.43.0


From 39cff85bc633665d477f858b91061568832e899e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:54 +0000
Subject: [PATCH 57/63] fix: SSCA2 makes as many clusters as the vertices need

A maximum clique size of 1 (SCALE below 3) divided by zero, and when the
estimated number of clusters did not reach the last vertex the last cluster
became larger than MaxCliqueSize.
---
 GTgraph/SSCA2/graph.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/GTgraph/SSCA2/graph.c b/GTgraph/SSCA2/graph.c
index 19306de..3ad764c 100644
--- a/GTgraph/SSCA2/graph.c
+++ b/GTgraph/SSCA2/graph.c
@@ -34,7 +34,9 @@ void graphGen(graph* g)
 
   	/* Estimate number of clusters required to make up 
 	 * TotVertices and pad by 25% */
-	estTotClusters = 1.25 * TotVertices / (MaxCliqueSize/2);
+	estTotClusters = 1.25 * TotVertices / (MaxCliqueSize > 1 ? MaxCliqueSize/2 : 1);
+	if (estTotClusters < 1)
+		estTotClusters = 1;
 	
 	/* Allocate a block of memory for this cluster-size array */
 	clusterSizes = (LONG_T *) malloc(estTotClusters*sizeof(LONG_T));
@@ -51,10 +53,17 @@ void graphGen(graph* g)
 
 	/* Compute the first vertex in each cluster */
 	firstVsInCluster[0] = 0;
-	for (i=1; i<estTotClusters; i++) {
+	for (i=1; firstVsInCluster[i-1] + clusterSizes[i-1] <= TotVertices-1; i++) {
+		/* The estimate was too low: more clusters */
+		if (i == estTotClusters) {
+			estTotClusters = 2*estTotClusters;
+			clusterSizes = (LONG_T *) realloc(clusterSizes, estTotClusters*sizeof(LONG_T));
+			firstVsInCluster = (LONG_T *) realloc(firstVsInCluster, estTotClusters*sizeof(LONG_T));
+			for (j = i; j < estTotClusters; j++) {
+				clusterSizes[j] = 1 + (sprng(stream) * MaxCliqueSize);
+			}
+		}
 		firstVsInCluster[i] = firstVsInCluster[i-1] + clusterSizes[i-1];
-		if (firstVsInCluster[i] > TotVertices-1)
-			break;
 	}
 
 	totClusters = i;
-- 
2.43.0


From 10261bf75a8c2f921e646f7ad86f0d2dbf7a5bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:54 +0000
Subject: [PATCH 58/63] fix: SSCA2 grows its edge list when the estimate is
 exceeded

The arrays were sized by a rough estimate that small graphs exceed, and that
divides by zero when ProbIntercliqueEdges is 1.
---
 GTgraph/SSCA2/graph.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/GTgraph/SSCA2/graph.c b/GTgraph/SSCA2/graph.c
index 3ad764c..309e41b 100644
--- a/GTgraph/SSCA2/graph.c
+++ b/GTgraph/SSCA2/graph.c
@@ -1,5 +1,13 @@
 #include "graph.h"
 
+/* The number of edges is only estimated beforehand */
+static void growEdges(LONG_T** startV, LONG_T** endV, LONG_T* size)
+{
+	*size = 2*(*size) + 16;
+	*startV = (LONG_T *) realloc(*startV, *size*sizeof(LONG_T));
+	*endV = (LONG_T *) realloc(*endV, *size*sizeof(LONG_T));
+}
+
 void graphGen(graph* g)
 {
 
@@ -78,7 +86,8 @@ void graphGen(graph* g)
  
 	/* Roughly estimate the total number of edges */
 	estNumEdges = (LONG_T) ((TotVertices * (double) MaxCliqueSize * (2-ProbUnidirectional)/2) +\
-		      	        (TotVertices * (double) ProbIntercliqueEdges/(1-ProbIntercliqueEdges))) * \
+		      	        (ProbIntercliqueEdges < 1 ? \
+				 TotVertices * (double) ProbIntercliqueEdges/(1-ProbIntercliqueEdges) : 0)) * \
 				(1+MaxParallelEdges/2);
 
 	fprintf(stderr, "\n\tEstimated number of edges - %ld\n", estNumEdges);
@@ -112,6 +121,8 @@ void graphGen(graph* g)
 				if (sprng(stream) >= p) {
 					/* generate edges in both directions */
 					for (k=0; k<1+((LONG_T) (MaxParallelEdges-1) * sprng(stream)); k++) {
+						if (edgeNum == estNumEdges)
+							growEdges(&startV, &endV, &estNumEdges);
 						startV[edgeNum] = i + \
 							firstVsInCluster[i_cluster];
 						endV[edgeNum] = j + \
@@ -119,6 +130,8 @@ void graphGen(graph* g)
 						edgeNum++;
 					}
 					for (k=0; k<1+((LONG_T) (MaxParallelEdges-1) * sprng(stream)); k++) {
+						if (edgeNum == estNumEdges)
+							growEdges(&startV, &endV, &estNumEdges);
 						startV[edgeNum] = j + \
 							firstVsInCluster[i_cluster];
                                         	endV[edgeNum] = i + \
@@ -131,6 +144,8 @@ void graphGen(graph* g)
 					 * one direction */
 					if (sprng(stream) > 0.5) {
 						for (k=0; k<1+((LONG_T) (MaxParallelEdges-1) * sprng(stream)); k++) {	
+							if (edgeNum == estNumEdges)
+								growEdges(&startV, &endV, &estNumEdges);
 							startV[edgeNum] = i + \
 							firstVsInCluster[i_cluster];
 							endV[edgeNum] = j + \
@@ -139,6 +154,8 @@ void graphGen(graph* g)
 						}
 					} else {
 						for (k=0; k<1+((LONG_T) (MaxParallelEdges-1) * sprng(stream)); k++) {
+							if (edgeNum == estNumEdges)
+								growEdges(&startV, &endV, &estNumEdges);
 							startV[edgeNum] = j + \
 							firstVsInCluster[i_cluster];	
 							endV[edgeNum] = i + \
@@ -196,6 +213,8 @@ void graphGen(graph* g)
 				
 				for (k=0; k<1+((LONG_T) (MaxParallelEdges - 1)* sprng(stream)); k++) {
 					if (p > sprng(stream)) {
+						if (edgeNum == estNumEdges)
+							growEdges(&startV, &endV, &estNumEdges);
 						startV[edgeNum] = i;
 						endV[edgeNum] = j;
 						edgeNum++;	
-- 
2.43.0


From bbc3bc87f20cc539c785d287612295cda7d10c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:25 +0000
Subject: [PATCH 59/63] fix: LFG streams look at their own node number only

initialize() used the lag of the first stream of the process: with a shorter stream it read past the end of the node number, and how a stream started up depended on it.
---
 GTgraph/sprng2.0-lite/src/lfg/lfg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GTgraph/sprng2.0-lite/src/lfg/lfg.c b/GTgraph/sprng2.0-lite/src/lfg/lfg.c
index 4122633..569f07a 100755
--- a/GTgraph/sprng2.0-lite/src/lfg/lfg.c
+++ b/GTgraph/sprng2.0-lite/src/lfg/lfg.c
@@ -544,7 +544,7 @@ unsigned *nstart, seed, initseed;
   for (i=ngen-1;i>=0;i--) 
   {
     k = 0;
-    for (j=1;j<lval-1;j++)
+    for (j=1;j<length-1;j++)
       if (q[i]->si[j]) 
 	k = 1;
     if (!k) 
-- 
2.43.0


From 56de7d15fdd1722f552c846fe5a4cfaab0eb3fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:25 +0000
Subject: [PATCH 60/63] fix: LFG streams report their own seed

get_seed_rng() reported the seed of the first stream made or unpacked in the process.
---
 GTgraph/sprng2.0-lite/src/lfg/lfg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GTgraph/sprng2.0-lite/src/lfg/lfg.c b/GTgraph/sprng2.0-lite/src/lfg/lfg.c
index 569f07a..1512feb 100755
--- a/GTgraph/sprng2.0-lite/src/lfg/lfg.c
+++ b/GTgraph/sprng2.0-lite/src/lfg/lfg.c
@@ -731,7 +731,7 @@ int get_seed_rng(gen)
 int *gen;
 #endif
 {
-        return(GS0^gseed);
+        return ((struct rngen *) gen)->init_seed;
 }
 
  
-- 
2.43.0


From 3d3cfadee0407a609db7a90f09d5de4564046068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:25 +0000
Subject: [PATCH 61/63] fix: MLFG init_rng frees its starting vector

Every stream that was initialized left the vector allocated.
---
 GTgraph/sprng2.0-lite/src/mlfg/mlfg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GTgraph/sprng2.0-lite/src/mlfg/mlfg.c b/GTgraph/sprng2.0-lite/src/mlfg/mlfg.c
index 770eff8..5929d44 100755
--- a/GTgraph/sprng2.0-lite/src/mlfg/mlfg.c
+++ b/GTgraph/sprng2.0-lite/src/mlfg/mlfg.c
@@ -483,6 +483,7 @@ int rng_type,gennum,param,seed,total_gen;
     seti(0,nstart[i]);
 
   p = initialize(rng_type, 1,param,seed^GS0,nstart,seed);  /* create a generator  */
+  free(nstart);
   if (p==NULL) 
     return NULL;
   else
-- 
2.43.0


From e685698472947d2c9e6da20f3ee0ec8b6dd188d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:25 +0000
Subject: [PATCH 62/63] fix: unpack_rng frees the stream it does not return

A refused packet left the half-made stream allocated.
---
 GTgraph/sprng2.0-lite/src/cmrg/cmrg.c   | 1 +
 GTgraph/sprng2.0-lite/src/lcg/lcg.c     | 1 +
 GTgraph/sprng2.0-lite/src/lcg64/lcg64.c | 1 +
 GTgraph/sprng2.0-lite/src/mlfg/mlfg.c   | 2 ++
 4 files changed, 5 insertions(+)

diff --git a/GTgraph/sprng2.0-lite/src/cmrg/cmrg.c b/GTgraph/sprng2.0-lite/src/cmrg/cmrg.c
index 2b12b47..884919b 100755
--- a/GTgraph/sprng2.0-lite/src/cmrg/cmrg.c
+++ b/GTgraph/sprng2.0-lite/src/cmrg/cmrg.c
@@ -590,6 +590,7 @@ char *packed;
   {
     fprintf(stderr,"ERROR: Unpacked ' %.24s ' instead of ' %s '\n",  
 	    p, GENTYPE); 
+    free(q);
     return NULL; 
   }
   else
diff --git a/GTgraph/sprng2.0-lite/src/lcg/lcg.c b/GTgraph/sprng2.0-lite/src/lcg/lcg.c
index c42107d..3bd405c 100755
--- a/GTgraph/sprng2.0-lite/src/lcg/lcg.c
+++ b/GTgraph/sprng2.0-lite/src/lcg/lcg.c
@@ -823,6 +823,7 @@ char *packed;
   {
     fprintf(stderr,"ERROR: Unpacked ' %.24s ' instead of ' %s '\n",  
 	    p, GENTYPE); 
+    free(q);
     return NULL; 
   }
   else
diff --git a/GTgraph/sprng2.0-lite/src/lcg64/lcg64.c b/GTgraph/sprng2.0-lite/src/lcg64/lcg64.c
index 46b1e73..9acad9e 100755
--- a/GTgraph/sprng2.0-lite/src/lcg64/lcg64.c
+++ b/GTgraph/sprng2.0-lite/src/lcg64/lcg64.c
@@ -534,6 +534,7 @@ char *packed;
   {
     fprintf(stderr,"ERROR: Unpacked ' %.24s ' instead of ' %s '\n",  
 	    p, GENTYPE); 
+    free(q);
     return NULL; 
   }
   else
diff --git a/GTgraph/sprng2.0-lite/src/mlfg/mlfg.c b/GTgraph/sprng2.0-lite/src/mlfg/mlfg.c
index 5929d44..722745e 100755
--- a/GTgraph/sprng2.0-lite/src/mlfg/mlfg.c
+++ b/GTgraph/sprng2.0-lite/src/mlfg/mlfg.c
@@ -741,6 +741,7 @@ char *packed;
   {
     fprintf(stderr,"ERROR: Unpacked ' %.24s ' instead of ' %s '\n",  
 	    p, GENTYPE); 
+    free(q);
     return NULL; 
   }
   else
@@ -768,6 +769,7 @@ char *packed;
   if(found == 0)
   {
     fprintf(stderr,"ERROR: Unpacked parameters are not acceptable.\n");
+    free(q);
     return NULL;
   }
 
-- 
2.43.0


From fe6369b89fb250e78f5ebe94efbcc53e01bea63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:47 +0000
Subject: [PATCH 63/63] fix: sprng() stays below one

Converting 64 (or 32) random bits to a double (or float) rounded the largest values up to 1, outside the interval [0,1) the generators promise: as a float about once in 2^25 draws. floor(n*sprng()) then names vertex n.
---
 GTgraph/sprng2.0-lite/src/sprng/sprng.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/GTgraph/sprng2.0-lite/src/sprng/sprng.c b/GTgraph/sprng2.0-lite/src/sprng/sprng.c
index c89a108..14029c9 100755
--- a/GTgraph/sprng2.0-lite/src/sprng/sprng.c
+++ b/GTgraph/sprng2.0-lite/src/sprng/sprng.c
@@ -21,6 +21,7 @@
 #include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
+#include <float.h>
 #include "memory.h"
 #include "sprng.h"
 #include "interface.h"
@@ -219,7 +220,8 @@ float get_rn_flt(igenptr)
 int *igenptr;
 #endif
 {
-    return get_rn_flt_tbl[((struct rngen *)igenptr)->rng_type](igenptr);
+    float r = get_rn_flt_tbl[((struct rngen *)igenptr)->rng_type](igenptr);
+    return r < 1 ? r : 1 - FLT_EPSILON/2; /* the conversion may round up */
 } /* get_rn_float */
 
 
@@ -230,7 +232,8 @@ double get_rn_dbl(igenptr)
 int *igenptr;
 #endif
 {
-	 return get_rn_dbl_tbl[((struct rngen *)igenptr)->rng_type](igenptr);
+    double r = get_rn_dbl_tbl[((struct rngen *)igenptr)->rng_type](igenptr);
+    return r < 1 ? r : 1 - DBL_EPSILON/2; /* the conversion may round up */
 } /* get_rn_dbl */
 
 
-- 
2.43.0

