import json
P=[]
def p(id,title,statement,over,text,why,files,state,mech,obs,hook=False):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=[{"input":"inputs","history":"histories","schedule":"schedules"}[o] for o in over],text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning="state the property constrains",where=files[0]) for n in state],mechanism=[dict(name=mech,where=files[0])],observe_at=[obs],hook_needed=None)))
core=["spgemm-blocks/masked-spgemm.h","spgemm-blocks/common.h","spgemm-blocks/hash/MaskedHashAlgorithm.h","spgemm-blocks/hash/HashAccumulator.h","spgemm-blocks/msa/MSAAlgorithm.h","spgemm-blocks/msa/MSAAlgorithm_old.h","spgemm-blocks/mca/MCAAlgorithm.h","spgemm-blocks/heap/MaskedHeapAlgorithm.h","spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h"]
p("M01","Masked product is exactly (A*B) restricted to the mask, in every algorithm",
  "For all conformant CSR matrices A, B and mask M with sorted duplicate-free rows, MaskedSpGEMM1p and MaskedSpGEMM2p with every row algorithm (MaskedHash, MSA1A, MSA2A, MCA, MaskedHeap with every inspection level, and the older MSA/heap variants) return exactly the entries (i,j) that are present in M and have at least one k with A(i,k) and B(k,j) present, each with value sum_k multop(A(i,k),B(k,j)). Values stored in M are irrelevant, explicit zeros are kept as entries, and all algorithms and both phases agree, whatever the shape (including zero rows, zero columns, empty rows, rows of any length) and index/value types.",
  ["input"],"every triple of sparsity patterns (A,B,M), every algorithm x phase, every row length and column-index range",
  "The repository has no runnable test of any multiplication; bugs depend on row-length thresholds, hash collisions and wrap-around, and mask/product overlap patterns that samples miss.",
  core,["accumulator tables","rowNvals/flopsPerRow","C.rowptr/colids/values"],"per-row accumulation into a mask-initialised accumulator followed by a mask-ordered gather","CSR C returned by MaskedSpGEMM1p/MaskedSpGEMM2p")
p("M02","Complemented-mask product is exactly (A*B) outside the mask",
  "For all conformant CSR A, B, M, MaskedSpGEMM1p and MaskedSpGEMM2p with the complemented row algorithms (MaskedHash<true,*>, MSA1A<true,*>, MSA2A<true,*>, MaskedHeap<true,true,0>) return exactly the entries (i,j) that are absent from M and have at least one k with A(i,k) and B(k,j) present, each with its full sum of products. This holds for rows whose mask is empty (the full product row) and rows whose mask is full (an empty row), and all algorithms and both phases agree.",
  ["input"],"every triple of sparsity patterns (A,B,M), every complemented algorithm x sorted/unsorted x phase",
  "No test runs a complemented product; the state of an accumulator entry depends on the order in which mask and product entries meet.",
  core,["accumulator tables","key lists","C.rowptr/colids/values"],"mask entries are marked not-allowed, products insert new keys, keys are gathered and mask entries erased","CSR C returned by MaskedSpGEMM1p/MaskedSpGEMM2p")
p("M03","Inner-product masked multiply (CSR x CSC) agrees with the definition",
  "For every CSR A, CSC B and CSR mask M, MaskedSpGEMM1p<MaskedInner>, MaskedSpGEMM2p<MaskedInner>, MaskedSpGEMM1pInnerProduct and MaskedSpGEMM2pInnerProduct return exactly the mask entries with at least one matching inner index, each with the full sum of its products, for any number of threads. The result is identical to the one the row-by-row (CSR x CSR) algorithms return for the same operands.",
  ["input"],"every triple of patterns (A,B,M), both phases, all thread counts",
  "No test runs it; the two-pointer merge and the work-based row split fail only for particular relative orders and empty rows/columns.",
  ["spgemm-blocks/masked-spgemm-inner.h","spgemm-blocks/inner/MaskedInnerSpGEMM.h","spgemm-blocks/inner/InnerAlgorithm.h","spgemm-blocks/common.h"],["workPerRow","colIds/values scratch of size M.nnz"],"merge of a sorted row of A with a sorted column of B per mask entry","CSR C returned")
p("M04","Each result row depends only on its own operands (scratch carries nothing over)",
  "Row i of a masked or complemented product is a function of A(i,:), M(i,:) and B only: it is the same whichever rows the same thread processed before or after it, in whatever order and sizes, and whatever bytes freshly allocated memory contained. In two-phase runs the numeric phase is likewise unaffected by what the symbolic phase left in the shared scratch buffer.",
  ["history","input"],"every ordered history of row shapes (short/long/empty/full/colliding) processed by one worker, every algorithm x phase, several fill patterns of fresh memory",
  "Needs all histories: stale accumulator entries only surface for particular successions of row sizes and table capacities.",
  core+["spgemm-blocks/util.h"],["accumulator buffer (dirty/clean split)","hash capacity/mask","key lists","heap storage"],"accumulators are reset per row by undoing only what the row touched; buffers are handed from symbolic to numeric with a dirty prefix","row i of C")
p("M05","Results are independent of thread count and schedule, and free of data races",
  "For every number of requested threads (0 = default, 1, fewer or more than the rows) and every interleaving of the worker threads, each masked multiplication terminates and returns the same C. No execution of any multiplication has two unsynchronised accesses by different threads to the same memory location of which at least one is a write.",
  ["schedule","input"],"all thread interleavings at synchronisation points within a preemption bound, with happens-before race detection on every access, over small inputs and all thread counts",
  "Real runs use whatever schedule the machine gives; a missing barrier or shared scratch variable almost never shows.",
  ["spgemm-blocks/masked-spgemm.h","spgemm-blocks/masked-spgemm-inner.h","spgemm-blocks/inner/MaskedInnerSpGEMM.h","spgemm-blocks/masked-spgemm-poly.h","spgemm-blocks/common.h","spgemm-blocks/scan.h","mask_hash_mult.h","spa_mult.h","hash_mult_hw.h"],["threadsNvals","rowNvals","C allocated by master"],"row ranges from the cumulative work; barrier - master allocates C - barrier","C and the set of memory accesses of the workers")
p("M06","Every result is a well-formed CSR that can be used as an operand",
  "Every multiplication returns C with rows = A.rows, cols = B.cols, rowptr[0] = 0, rowptr non-decreasing, rowptr[rows] = nnz, every column index in range and no duplicate in a row; the columns of each row are in increasing order for every plain-mask algorithm (given sorted inputs) and for every complemented algorithm whose Sorted parameter is true. C may hold a previous result (it is replaced and its memory released) and can itself be fed to later multiplications as A, B or M.",
  ["input","history"],"every pattern triple and every short sequence of multiplications reusing the same matrix objects",
  "Structural defects of C (an unset rowptr entry, unsorted row, stale nnz) are invisible to a single sampled product and only break the next operation.",
  core+["CSR.h"],["C.rows/cols/nnz/rowptr/colids/values"],"initC + setRowOffsets + copyValuesToC / in-place numeric phase","fields of C")
p("M07","Operands are never modified and C may alias an operand",
  "A multiplication leaves A, B and M (all fields and arrays) bit-for-bit unchanged. The masked kernels also give the same answer when C is the same object as A, B or M (or several of them), as the k-truss and betweenness-centrality drivers rely on: the old contents are read completely before they are replaced.",
  ["input"],"every pattern triple x every aliasing combination of C with A, B, M x algorithm x phase x threads",
  "test-same-in-out cannot run (its input file is missing); aliasing bugs are use-after-free that often still yields plausible numbers.",
  ["spgemm-blocks/masked-spgemm.h","spgemm-blocks/masked-spgemm-inner.h","spgemm-blocks/inner/MaskedInnerSpGEMM.h","spgemm-blocks/common.h","benchmarks/BCAllGrb.cpp"],["A,B,M arrays","C arrays"],"one-phase: C is rebuilt after the last read; two-phase: result built in a temporary and moved into C","A,B,M after the call and C")
p("M08","Only the caller's semiring is applied, in operand order",
  "Each output value is obtained only from multop(a,b), with a the entry of A and b the entry of B, called exactly once per contributing pair, combined with addop in an order-insensitive way; no additive or multiplicative identity (such as 0 or 1) is injected and multop/addop results are never altered. So semirings such as (min,+), (max,second), (or,and) or (plus,pair) give their own exact answers in every masked algorithm, plain and complemented.",
  ["input"],"every pattern triple x family of semirings (free/hash-sum, min-plus, max, first, second, pair, zero-annihilating) x algorithm x phase",
  "With plus-times on positive numbers an injected 0, a swapped operand or a reused accumulator value is invisible.",
  core+["spgemm-blocks/inner/InnerAlgorithm.h","inner_mult.h"],["accumulator value slots"],"first product initialises the slot, later ones are combined with addop","C.values and the calls made to multop/addop")
p("M09","Multiplications are memory safe and release everything they allocate",
  "For all conformant inputs, including empty matrices, no multiplication kernel reads or writes outside the live arrays it owns or was given, depends on uninitialised memory, loops forever or aborts. After it returns, the only new allocations are C's arrays, and make_empty (or destruction) of C releases those.",
  ["input"],"every pattern triple and size threshold x every kernel, with a guard on every allocation",
  "An off-by-one in a scratch array or an unreleased per-thread buffer leaves results correct.",
  core+["spgemm-blocks/util.h","utility.h","CSR.h","CSC.h"],["per-thread scratch buffers","aligned buffers","result arrays"],"my_malloc/mallocAligned with matching frees, sizes from scanInputs","heap before/after, sanitizer traps")
p("L10","The top-level masked kernels agree with the definition",
  "mxm_hash_mask, mxm_hash_mask_wobin, MaskedSPASpGEMM, HeapSpGEMM with every masked rowAlg (MaskedHeap_v0/v1/v2, MCA_v1/v2/v3), innerSpGEMM_nohash and the adaptive MaskedSpGEMM1p (poly) return, for all conformant A, B, M, exactly the mask entries having a matching inner index, each with its full sum of products, and a well-formed CSR, for any positive number of threads and any interleaving (without data races).",
  ["input"],"every pattern triple x kernel x thread count, plus row-length thresholds",
  "They are only compiled, never run, by the tests; several share thread-local tables and binning tables indexed by row.",
  ["mask_hash_mult.h","mask_hash.h","spa_mult.h","heap_mult_generic.h","inner_mult.h","BIN.h","SPA.h","HeapEntry.h","spgemm-blocks/masked-spgemm-poly.h"],["BIN row bins and thread offsets","per-thread hash tables","SPA state arrays"],"row binning by flops, per-thread table sized by the maximal row","CSR C returned")
p("L11","The unmasked kernels compute the full product",
  "HashSpGEMM (sorted and unsorted), HeapSpGEMM (CSC and CSR forms) and OuterSpGEMM return exactly the entries of the full product A*B with their full sums of products, in a well-formed result (sorted rows/columns where promised), for all conformant A and B, any positive number of threads and any interleaving (without data races).",
  ["input"],"every pattern pair x kernel x thread count, plus table-size, block and radix-sort thresholds",
  "Never run by tests; behaviour depends on hash table size classes, block boundaries and radix-sort digit boundaries.",
  ["hash_mult_hw.h","heap_mult.h","heap_mult_generic.h","outer_mult.h","outer_mult2.h","radix_sort/radix_sort.hpp","BIN.h"],["BIN","per-thread hash tables","tuple blocks"],"symbolic then numeric hash; heap merge; expand-sort-compress","C returned")
p("F12","Conversions between CSR, CSC, triples and GraphBLAS preserve the matrix",
  "Converting any matrix CSR<->CSC (constructors and assignment), from triples (with duplicates combined by the given addition where merging is requested), through GraphBLAS import/export, or transposing it, yields exactly the same set of (row, column, value) entries in the new layout, with correct dimensions and pointers and with row/column indices in increasing order when the source is sorted, for every thread count and interleaving (without data races); the source is left unchanged.",
  ["input"],"every small pattern/triple sequence, all shapes including empty and rectangular",
  "No test converts anything; off-by-one errors concern empty trailing rows/columns and rectangular shapes.",
  ["CSR.h","CSC.h","util/transpose.h","Triple.h","util/triple-util.h","grb_util.h"],["rowptr/colptr","bucket counters"],"counting + cumulative sum + scatter","fields of the produced matrix")
p("F13","Matrix objects own their storage with value semantics",
  "Copying, assigning (including self-assignment and assignment over a non-empty or differently shaped matrix), emptying, reusing and destroying CSR and CSC objects in any order never double-frees, leaks non-empty storage, or lets a change to one object show in another; a copy equals its source and make_empty yields a 0-entry matrix that can be reused.",
  ["history"],"all sequences of construct/copy/assign/convert/make_empty/multiply-into/destroy operations up to a depth on a few objects of different shapes",
  "Ownership errors need particular sequences of operations on particular shapes (zero rows, zero nnz).",
  ["CSR.h","CSC.h"],["rowptr,colids/rowids,values ownership keyed on rows/nnz"],"raw pointers freed when nnz>0 / rows>0","heap and fields after each step")
p("F14","Matrix utilities match their mathematical meaning",
  "On every matrix: Intersect returns the common entries with the given combination of values, SpRef returns the requested submatrix, ConvertOneBased/ConvertZeroBased shift every index once, sumall returns the sum of the stored values, the equality operator is true exactly for matrices with the same dimensions, structure and (tolerance-)equal values, sortIds sorts each row keeping values paired with indices, and shuffleIds/sorting never loses entries; the answers do not depend on the number of threads or their interleaving.",
  ["input"],"every small pattern pair / index list, plus row-length thresholds of the sorts",
  "Only the sampled benchmark drivers call them.",
  ["CSR.h","CSC.h","utility.h"],["matrix arrays"],"two-pointer merges and counting","returned matrix or scalar")
p("I15","Matrix readers load exactly the file's entries",
  "ReadASCII, ReadASCII_Triples, the CSR file constructor and ReadBinary produce, for any well-formed file (any comment lines, general or symmetric header, 1-based indices, integer or real values, entries in any order), the matrix with exactly the listed entries and values, well-formed; rows/columns are in increasing order for ReadASCII and ReadBinary, and for CSR(file) when the file lists its entries in column order; symmetric storage yields both triangles and requested self-loop removal drops exactly the diagonal.",
  ["input"],"every small file over an alphabet of headers, dimensions, entry lists and value spellings",
  "The only file-based test cannot run (missing input).",
  ["IO.h","CSR.h","utility.h"],["triples buffer"],"header scan, entry scan, triples to CSC/CSR","returned matrix")
p("U16","Scans and prefix sums equal the sequential prefix sum",
  "inclusiveScan, exclusiveScan, scan, seq_scan and CumulativeSum produce exactly the sequential prefix sums of their input for every length, thread count and interleaving (without data races), and touch nothing outside their input and output ranges.",
  ["input","schedule"],"every length around thread-count and switch-over boundaries x thread counts x schedules",
  "The unit tests sample a few sizes; the parallel path starts at 2^17 elements or depends on size modulo threads.",
  ["spgemm-blocks/scan.h","utility.h"],["partialSums"],"block sums, barrier, block rescan","dst array")
p("U17","Work estimates are exact and work splits cover every row exactly once",
  "calculateFlops, calculateWork, calculateMultOps and get_flop return exactly the number of multiplications (restricted to rows with a non-empty mask where a mask is given), per row and in total, for every thread count and interleaving (without data races). distributeWork assigns to the threads consecutive, disjoint row ranges that together cover all rows exactly once, for every distribution of work (all-zero rows, one huge row, more threads than rows), and BIN's row offsets do the same.",
  ["input"],"every small work vector x thread count, every pattern triple",
  "Rows lost between two ranges only appear for special work distributions and thread counts.",
  ["spgemm-blocks/common.h","BIN.h","multiply.h"],["cumulativeWork","rows_offset"],"lower_bound on the exclusive prefix sum","returned ranges and totals")
p("A18","Accumulator objects behave as maps/sets under every operation sequence",
  "HashAccumulator behaves as a map/set from keys to values for every sequence of insert, find, erase and gather within its capacity (including colliding and wrapping keys), MSA1A/MSA2A and MCA accumulators track allowed/initialised states per index exactly, and after the documented reset or gather they are indistinguishable from freshly cleaned ones; the legacy BitMap, SPA and map_lp tables likewise.",
  ["history"],"all operation sequences up to a depth over small key alphabets that force collisions and wrap-around",
  "Backward-shift deletion and lazy clearing fail only for particular insertion/erasure histories.",
  ["spgemm-blocks/hash/HashAccumulator.h","spgemm-blocks/msa/MaskedSparseAccumulator1A.h","spgemm-blocks/msa/MaskedSparseAccumulator2A.h","spgemm-blocks/mca/MaskCompressedAccumulator.h","spgemm-blocks/heap/Heap.h","spgemm-blocks/util.h","BitMap.h","SPA.h","mask_hash.h"],["tables, states, key lists"],"open addressing with backward-shift erase; state bytes; binary heap","results of find/insert/erase/gather")
p("S19","The bundled sorts sort",
  "TimSort (both bundled copies), pdqsort, vergesort and the radix sort return a sorted permutation of their input for every input; the two timsorts are stable; comparators are only called as strict weak orders and no element outside the range is touched.",
  ["input"],"every short sequence over a small alphabet, plus structured sequences (runs, saw-teeth, organ pipes) around the algorithms' length thresholds",
  "Merge/gallop/partition corner cases depend on run structure that random tests rarely build.",
  ["cpp-TimSort/include/gfx/timsort.hpp","timsort-cpp/include/tim/timsort.h","pdqsort/pdqsort.h","vergesort/include/vergesort/vergesort.h","radix_sort/radix_sort.hpp"],["runs stack","temporary buffer","histograms"],"run detection + galloping merge; pattern-defeating quicksort; LSD/MSD radix passes","array after the call")
p("G20","Triangle count, k-truss and betweenness centrality are the true answers",
  "On every graph, the triangle counts, the k-truss (number of surviving edges, k >= 3) and the betweenness-centrality sums reported by the benchmark drivers equal the brute-force answers and are the same for all the masked algorithms and thread counts they offer; the GraphBLAS preprocessing they use (reading a file with loops removed, made symmetric or with random values, the strict lower triangle, storage by column, relabelling by degree, avoid_iso) yields exactly the matrix it describes and leaves its input intact.",
  ["input"],"every labelled graph up to a vertex bound x algorithm x k",
  "The drivers have no tests and are only compiled.",
  ["benchmarks/KTrussAllGrb.cpp","benchmarks/BCAllGrb.cpp","benchmarks/TriCntAll.cpp","benchmarks/TriCntAllGrb.cpp","grb_util.h","IO.h","CSR.h","CSC.h"],["T/C iterates","frontier/predecessor matrices"],"iterated masked products until a fixpoint","LOG lines printed, matrices left by the preprocessing")
p("Q21","PaRMAT's concurrent generation neither loses nor corrupts edges",
  "For every interleaving of producers and consumers, threadsafe_queue is a linearizable FIFO whose waiting pop always completes once an element is available, and capacity_controller never exceeds its bound, nor blocks a producer forever or while its request fits, and neither has data races; a generated graph (for requests whose squares stay sparse) has exactly the requested number of edges within the vertex range, without self-loops or duplicates when these are disabled, lower/upper-triangular when undirected and ordered by source when sorting is requested.",
  ["schedule","input"],"all interleavings of 2-3 threads with 1-3 operations, all short sequences of random-generator answers",
  "Lost wake-ups and lost nodes need specific interleavings; generated graphs are random.",
  ["PaRMAT/src/threadsafe_queue.hpp","PaRMAT/src/capacity_controller.hpp","PaRMAT/src/GraphGen_notSorted.cpp","PaRMAT/src/GraphGen_sorted.cpp","PaRMAT/src/utils.cpp","PaRMAT/src/Square.cpp"],["head/tail nodes","accumulated capacity","squares"],"fine-grained two-lock queue; capacity gate; recursive square shattering","popped values, generated edges")
p("T22","The GTgraph generators produce the graph their parameters describe",
  "For every sequence of random numbers (answers in [0,1), never exactly on a threshold), GTgraph-rmat produces exactly m edges, each obtained by descending n/2, n/4, ... 1 through the quadrant the number falls into (first level: exactly the given a, b, c, d, for every edge and every call; below: varied by at most 5 % per level, up or down), without loops unless SELF_LOOPS; GTgraph-random produces in model 0 an edge for a pair exactly when p exceeds its number and in model 1 exactly m pairs modulo n, without loops unless SELF_LOOPS; GTgraph-ssca2 produces cliques of at most MaxCliqueSize vertices (every pair connected; in both directions if ProbUnidirectional is 0, in one if it is 1), further edges only between different cliques, at most MaxParallelEdges parallel ones, no self edges, under a renaming of the vertices that can be any permutation. Weights are MIN + floor((MAX-MIN) x). With sorting the same edges come out ordered by start vertex; the DIMACS file written (afterwards or on the fly) announces and lists exactly these edges; command line options in any order the usage text allows and every config-file parameter take effect. No memory outside the arrays is touched and no file or block is left behind.",
  ["input","history"],"every short sequence of random answers x parameters x output modes; every word of start vertices for the sorts; every option order",
  "Nothing tests the generators; their output is random, and buffers sized by estimates or parameters that drift between calls only fail for particular sequences.",
  ["GTgraph/R-MAT/graph.c","GTgraph/R-MAT/utils.c","GTgraph/R-MAT/init.c","GTgraph/random/graph.c","GTgraph/random/utils.c","GTgraph/random/init.c","GTgraph/SSCA2/graph.c","GTgraph/SSCA2/utils.c","GTgraph/SSCA2/init.c"],["edge lists","random streams","parameter globals"],"recursive descent, pair loops, clusters + shuffle; counting and heap sort","graph returned, file written")
p("R23","A SPRNG random stream is a function of its parameters alone",
  "For each of the five generators of sprng2.0-lite (LFG, LCG, LCG64, CMRG, MLFG), every accepted combination of stream number, number of streams, seed and parameter yields the generator's documented sequence (the published test sequences among them), as integers in [0, 2^31), doubles and floats in [0, 1), each draw advancing the stream by its own number of steps and nothing else. What other streams do - being created, drawn from, spawned, packed, freed, in any order - does not change it. Packing and unpacking, into the same or another build, continues the very stream; spawning leaves the parent's sequence as it is and yields the streams the documented numbering assigns, so that the streams of one family differ. Bad generator types, stream numbers, parameters and foreign packets are refused and leave nothing behind; under CHECK_POINTERS so is every use of a freed stream or of what is no stream. The simple interface is one such stream. The prime tables hold, in order, the primes they are documented to hold, also beyond the table. Nothing outside a stream's blocks is touched and freed streams leave no block behind.",
  ["input","history"],"every history of operations up to a length over several streams x generator x parameter",
  "The repository's own tests draw from one stream at a time with default parameters; a dependence on what was created before, on a packed stream's position or on the last bits of an integer shows only in particular histories.",
  ["GTgraph/sprng2.0-lite/src/lfg/lfg.c","GTgraph/sprng2.0-lite/src/lcg/lcg.c","GTgraph/sprng2.0-lite/src/lcg64/lcg64.c","GTgraph/sprng2.0-lite/src/cmrg/cmrg.c","GTgraph/sprng2.0-lite/src/mlfg/mlfg.c","GTgraph/sprng2.0-lite/src/sprng/sprng.c","GTgraph/sprng2.0-lite/src/primes_32.c","GTgraph/sprng2.0-lite/src/primes_64.c","GTgraph/sprng2.0-lite/src/checkid.c","GTgraph/sprng2.0-lite/src/store.c","GTgraph/sprng2.0-lite/include/sprng.h"],["stream structures","prime tables","identity chain"],"lagged Fibonacci / congruential / combined recurrences","stream initialised, drawn, spawned, packed, freed")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
