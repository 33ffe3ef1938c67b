#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P=[]
def prop(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},
              "why_tests_cant":why,"anchors":a})

LS="LevelSchedule.cpp"; LH="LevelSchedule.hpp"
prop("C01","Task schedule runs each row once and orders every dependence",
 "For a structurally symmetric matrix whose rows list lower entries before the diagonal and upper entries after it, the constructed schedule assigns every row to exactly one task and every task to exactly one thread, and the row numbering it publishes is a permutation together with its exact inverse. In the forward sweep every row is ordered after all rows its lower entries name, and in the backward sweep after all rows its upper entries name, by thread program order plus the published waits (or, in barrier mode, by levels); no set of waits is cyclic; the published levels are those of the longest dependence chains. This holds for every thread count, cost function, indexing base, entry overload (with or without diagonal and external-column pointers) and option combination.",
 ["inputs","configurations"],"every pattern x thread count x base x cost function x option set (barrier, pruning, fused, aggregated, pooled memory) x construct overload",
 "The drivers solve a few Laplacians with 1-4 threads and default cost; a missing edge changes the result only if the race is lost in that run, and empty levels, hub rows, chains, many components or more threads than rows are never tried.",
 [LS,LH],[("level discovery by parallel topological sort, per-level load balanced task partition, inter-thread edge collection", "LevelSchedule.cpp constructTaskGraph*"),("wait/notify contract","LevelSchedule.hpp SPMP_LEVEL_SCHEDULE_WAIT/NOTIFY")],
 [("levIndices/taskBoundaries/threadBoundaries","levels, tasks and their owner threads","LevelSchedule.hpp"),("parentsForward/Backward","tasks to wait for","LevelSchedule.hpp"),("origToThreadContPerm/threadContToOrigPerm","row numbering by executing thread","LevelSchedule.hpp")],
 ["public members of LevelSchedule after construction"])
prop("C02","Parallel sweeps under the schedule equal the sequential sweep",
 "Executing lower/upper triangular solves, Gauss-Seidel sweeps or incomplete factorisation by the documented task protocol (wait, work, notify, or barrier per level) gives, under every thread interleaving and any number of repetitions, bit-for-bit the values of the row-by-row sequential execution. Every execution terminates.",
 ["schedules","inputs","configurations"],"every interleaving of the worker threads x matrices x sync mode (point-to-point, pruned point-to-point, barrier, permuted numbering) x repeated forward/backward sweeps",
 "The tests compare within tolerance after a last repeat on one machine's natural timing, so an ordering hole that needs a delayed thread is not seen; termination is only seen for the sampled sizes.",
 [LS,LH,"synk/barrier.cpp"],[("per-task finished flags set after the work and read before dependants","LevelSchedule.hpp WAIT/NOTIFY macros"),("per-level barrier","synk/barrier.cpp wait")],
 [("taskFinished","completion flag of each task","LevelSchedule.hpp")],["output vectors of user kernels; per-row start/finish stamps taken by the harness"])
prop("C03","Pruning redundant waits keeps exactly the same ordering",
 "The schedule built with transitive reduction orders exactly the same pairs of rows in both sweep directions as the schedule built without it, uses the same tasks, levels and thread assignment, never contains more waits, and keeps no wait that is already implied by a two-step path of other waits and program order. Building the schedule again for the same input with the same threads and options gives the same tasks and waits.",
 ["inputs","configurations"],"every structurally symmetric pattern x thread count x cost function x base",
 "Tests run the pruned graph only and look at numeric output; a wrongly pruned edge is hidden whenever timing is lucky.",
 [LS],[("two-hop transitive reduction and intra-thread/duplicate edge removal","LevelSchedule.cpp constructTaskGraph_ transitive reduction")],None,["parents lists of two schedules for the same matrix"])
prop("C04","Fused smoother plus SpMV never reads a value that is not final",
 "When the schedule is built for a fused backward sweep and matrix-vector product, the extra waits make every row's product read only final sweep values of all its columns, each row's product is assigned to exactly one task, and the fused result equals sweep followed by product for every interleaving.",
 ["schedules","inputs","configurations"],"every pattern x thread count x options x interleaving of worker threads",
 "No test executes the fused schedule and checks it under delayed threads.",
 ["gs_spmv_fused.cpp",LS],[("extra parents for the product of each task","gs_spmv_fused.cpp / LevelSchedule.cpp fuseSpMV")],None,["FusedGSAndSpMVSchedule public members; output vectors"])
prop("C05","The barrier releases nobody before everybody has arrived",
 "In any team of any size, including several hardware threads per core, no thread leaves its k-th wait before every thread of the team has entered its k-th wait, for any number of consecutive waits with any relative thread speeds. Every wait that all threads enter returns, writes made before a wait are visible after it, and the shared instance can be deleted and re-created for another team size.",
 ["schedules","configurations","histories"],"team sizes 1..16+ x threads per core x rounds x delays placed before, inside and after waits",
 "Tests use the barrier only inside solver levels with natural timing and 1-4 threads, one thread per core, and never re-create it.",
 ["synk/barrier.cpp","synk/synk.cpp","synk/barrier.hpp"],[("dissemination rounds with sense and parity flags","synk/barrier.cpp wait"),("per-core gather/release","synk/barrier.cpp wait"),("init rendezvous","synk/barrier.cpp init")],
 [("partner flags, sense, parity","round state","synk/barrier.hpp")],["per-thread enter/leave stamps recorded by the harness"])
prop("C06","The reduction barrier returns the whole team's reduction to everyone",
 "Each call of the reducing barrier acts as a barrier and returns, to every thread, the reduction by the given commutative and associative function (with the given identity value) of exactly the values contributed by the team to that call, for every team size, threads-per-core setting and number of consecutive calls. The load-imbalance barrier built on barriers also synchronises the whole team, and the times it books per thread and place are never negative, never more than the time that passed, and are reported as booked.",
 ["schedules","configurations","histories"],"team sizes (powers of two and not) x threads per core x rounds x delays",
 "No test uses the reduction barrier.",
 ["synk/reduce.hpp","synk/loadimba.cpp"],[("dissemination of partial values with pseudo cores","synk/reduce.hpp wait")],None,["value returned to each thread per round"])
prop("C07","RCM gives a true reverse Cuthill-McKee numbering",
 "For every structurally symmetric matrix, in either base and with any thread count, the reverse Cuthill-McKee call fills a permutation and its exact inverse. Read backwards, each connected component occupies a contiguous range and is a breadth-first numbering from one of its nodes in which each node's not yet numbered neighbours appear together, in the order of their parents and by non-decreasing degree. The matrix itself is unchanged.",
 ["inputs","configurations","schedules"],"graphs from empty to beyond the parallel threshold (65536-node components), many components, hubs, long paths x threads x source selection on/off x base",
 "reordering_test only looks for duplicates in the permutation, on five inputs, all of them a single small component class.",
 ["reordering/RCM.cpp","reordering/ConnectedComponents.cpp"],[("parallel BFS levels, per-level prefix sums, parallel placement","reordering/RCM.cpp"),("component decomposition","reordering/ConnectedComponents.cpp")],None,["perm / inversePerm arrays"])
prop("C08","BFS ordering is a permutation that follows breadth-first levels",
 "For every structurally symmetric matrix, in either base and with any thread count, the breadth-first ordering fills a permutation and its exact inverse in which each connected component is contiguous and nodes appear in non-decreasing distance from the component's first node.",
 ["inputs","configurations","schedules"],"graphs of any size and component structure x threads x base",
 "Only a duplicate check on five inputs with at most four threads exists today.",
 ["reordering/RCM.cpp"],[("parallel BFS with per-thread queues and visited map","reordering/RCM.cpp bfs / getBFSPermutation")],None,["perm / inversePerm arrays"])
prop("C09","Connected components are found exactly, whatever the races",
 "For every structurally symmetric pattern, base and thread count, the detected components are exactly the graph's connected components: two nodes share a component if and only if a path joins them, sizes and offsets partition all nodes, each component lists its nodes in increasing order, and its root is its smallest node. No interleaving of the concurrent merging threads changes this.",
 ["schedules","inputs","configurations"],"interleavings of concurrent unions x graphs (random forests, merged chains, stars, isolated nodes) x threads x base",
 "The routine runs inside reordering on connected graphs with at most four threads; a lost union needs a specific race and shows up only as a bad permutation.",
 ["reordering/ConnectedComponents.cpp"],[("concurrent union-find with compare-and-swap linking","reordering/ConnectedComponents.cpp"),("parallel counting sort by component","reordering/ConnectedComponents.cpp")],None,["outputs of findConnectedComponents"])
prop("C10","Bipartite BFS numbers every row and column exactly once",
 "For every rectangular matrix and its transpose, in any thread count, the bipartite breadth-first ordering fills a row permutation and a column permutation together with their exact inverses, including matrices with empty rows or columns and several components. Rows of one component are contiguous and in non-decreasing distance from the component's first row.",
 ["inputs","configurations","schedules"],"rectangular patterns with empty rows/columns, hubs and many components x threads",
 "BFSBipartite_test checks nothing about its outputs.",
 ["reordering/BFSBipartite.cpp"],[("alternating row/column BFS with per-thread queues","reordering/BFSBipartite.cpp")],None,["four output arrays"])
prop("C11","Transpose is exact and independent of the thread count",
 "Transposing a matrix of any shape, base and thread count, with or without values, yields exactly its mirrored entries (same multiset of row, column, value), each output row in increasing order of original row and stable for duplicates, with diagonal pointers that point at the diagonal entries. Transposing twice gives back the original with rows sorted, and the input is untouched.",
 ["inputs","configurations"],"shapes (empty, single row/column, wide, tall), duplicates, empty rows, bases, pattern-only, thread counts",
 "No test calls transpose on its own; pipelines that use it pass symmetric inputs.",
 ["CSR.cpp"],[("parallel counting sort with transposed prefix sum","CSR.cpp transpose")],None,["returned matrix"])
prop("C12","Permuting a matrix moves every entry to its permuted position",
 "Permuting rows and columns, rows only, row pointers only, or columns in place by any permutations keeps exactly the entries (row, column, value) at their permuted positions, in either base, with or without values, sorted when asked, at any thread count. Diagonal pointers, where present, denote the same diagonal entries as before, and lower/upper separation around them is kept as documented.",
 ["inputs","configurations"],"matrices x arbitrary permutations x sort option x base x presence of values/diagonal/external pointers x threads",
 "Only symmetric permutation of a few matrices is exercised, and only through its effect on SpMV timing or solver tolerance.",
 ["Permute.cpp"],[("parallel row pointer permutation by prefix sum, load balanced entry copy","Permute.cpp")],None,["returned / modified matrix"])
prop("C13","SpMV equals the definition for every scalar combination",
 "w = alpha*A*x + beta*y + gamma holds up to floating-point rounding for every matrix, base, thread count and scalars, including the special cases of 0 and 1, empty rows, rectangular shapes and w being the same vector as x or y, and entries of w outside the rows are untouched.",
 ["inputs","configurations"],"matrices x scalars (0, 1, -1, general) x aliasing x base x threads",
 "Drivers call it with alpha=1, beta=0, gamma=0 on square matrices and mostly time it.",
 ["SpMV.cpp"],[("load balanced row partition and specialised kernels per scalar case","SpMV.cpp multiplyWithVector")],None,["w"])
prop("C14","Sparse times dense block equals the definition for every layout",
 "W = alpha*A*X + beta*Y + gamma holds up to rounding for every block width, row/column stride of each operand, base, thread count and scalars, and memory between strided elements is never written.",
 ["inputs","configurations"],"matrices x widths x independent strides of W, X, Y x scalars x base x threads",
 "No test calls the dense-block product.",
 ["SpMV.cpp"],[("strided and unit-stride kernels","SpMV.cpp multiplyWithDenseMatrix")],None,["W with canaries"])
prop("C15","LU splitting partitions the off-diagonal entries",
 "Splitting a square matrix with diagonal pointers into lower and upper parts puts every entry left of the diagonal in the lower part and every entry right of it in the upper part, in original order and with original values, none of the diagonal entries in either; non-local entries stay at the end of the upper rows and are marked as such. This holds for every base and thread count and leaves the input unchanged.",
 ["inputs","configurations"],"matrices with full diagonal, with and without external columns x base x threads",
 "No test checks the split matrices.",
 ["SymGS.cpp"],[("parallel counts and prefix sums per part","SymGS.cpp splitLU")],None,["L and U"])
prop("C16","Symmetrised pattern is exactly the union of pattern and transpose",
 "For every square matrix with sorted rows and full diagonal, the symmetric pattern routine tells whether the local pattern already was symmetric and, if not, returns the pattern of A+A^T with each pair once, rows sorted around a diagonal pointer that denotes the diagonal, and non-local columns kept after the local ones, in either base and any thread count.",
 ["inputs","configurations"],"patterns from symmetric to fully unsymmetric, with and without external columns x base x threads",
 "Used by two drivers on one unsymmetric input with base 0.",
 ["SymGS.cpp"],[("missing-partner search and merge","SymGS.cpp getSymmetricNnzPattern")],None,["returned arrays"])
prop("C17","Matrix Market files are read and written without loss",
 "Reading a well-formed coordinate file (general or symmetric; real, integer or pattern; one- or zero-based; any entry order; optional forced symmetry, transposed reading and padding) yields exactly the entries the file denotes, and writing then reading a matrix returns the same shape, entries and values bit for bit. Dense vector files are read element by element in order. The low-level routines for banners, size lines, single entries and whole files (complex and pattern ones too) read back what they wrote. Every call closes the file it opened.",
 ["inputs"],"well-formed files over the format's grammar x load options; matrices of any shape and finite values",
 "Five fixed generated files are loaded; nothing checks that what was loaded or stored is right.",
 ["COO.cpp","mm_io.cpp","CSR.cpp","Vector.cpp"],[("header parse, triangle mirroring, padding, index shift","COO.cpp loadMatrixMarket_"),("writers","COO.cpp storeMatrixMarket, CSR.cpp storeMatrixMarket")],None,["loaded COO/CSR/vector; files written"])
prop("C18","Malformed text input is rejected without memory damage",
 "A coordinate file that does not hold the matrix it promises (an entry cut short, missing, surplus or out of range, text where a number belongs) is rejected by the matrix loaders, and a dense one by the vector loader. Whatever bytes a matrix or vector file contains (bad banner, wrong counts, truncated or surplus entries, out-of-range indices, huge tokens, non-numeric text), the loaders return failure or a matrix whose indices lie inside its declared shape; no reader, including the low-level ones that return indices as written, reads or writes outside its buffers, loops forever, crashes or keeps the file open (given memory enough for the declared shape).",
 ["inputs"],"arbitrary bytes presented as a file, in particular small corruptions of well-formed files",
 "Tests only load well-formed files.",
 ["COO.cpp","mm_io.cpp","Vector.cpp"],[("banner and size checks, entry range checks","mm_io.cpp, COO.cpp")],None,["return code, loaded arrays under ASan/UBSan"])
prop("C19","Binary matrix files round-trip exactly and reject damage",
 "Storing a matrix of any base in the binary format and loading it with any requested base returns identical shape, pattern, values (bit for bit; ones for a pattern-only matrix) and diagonal information, leaves the stored matrix unchanged even when the file cannot be written, and a wrong signature, truncated or inconsistent file gives an empty matrix or one whose indices are in range, never memory damage.",
 ["inputs","fault_sequences"],"matrices of any shape x base pairs; every truncation point and header corruption",
 "mtx2bin only checks one round trip with base 0 in one build.",
 ["CSR.cpp"],[("header, row counts, columns, values in order","CSR.cpp storeBin/loadBin")],None,["loaded matrix"])
prop("C20","COO to CSR keeps every entry and builds correct diagonals",
 "Converting coordinate triples to compressed rows keeps the exact multiset of entries including duplicates, puts each in its row, sorts each row by column when asked, shifts to the requested base, and fills diagonal pointers, diagonal and inverse diagonal values that match the diagonal entry of every row that has one.",
 ["inputs","configurations"],"triples in any order with duplicates and empty rows x sort option x output base x threads",
 "Only exercised through loading of five files without checking.",
 ["COO.cpp"],[("counting, scatter and per-row sort","COO.cpp dcoo2csr")],None,["CSR arrays"])
prop("C21","Base switches and copies preserve the matrix they denote",
 "Switching between zero- and one-based indexing any number of times, in any order, and copying or assigning a matrix preserve the denoted entries, the diagonal pointers and values and the external-column pointers; a copy is independent of its source and releasing any of them never frees or changes another's data.",
 ["histories","inputs"],"sequences of base switches, copies, assignments, diagonal constructions and releases on matrices with and without optional arrays",
 "Tests never switch bases or copy.",
 ["CSR.cpp"],[("index shifts of every index array","CSR.cpp make0/1BasedIndexing"),("deep copy and ownership flag","CSR.cpp")],None,["all arrays before/after"])
prop("C22","Structural queries answer by their definitions",
 "Symmetry (pattern or value), zero-diagonal, bandwidth, average row width, maximum degree, entry count, base and equality answer exactly by their mathematical definition for every matrix (its own part, if it also has external columns), base and thread count; printing lists exactly the stored entries; and the answer does not depend on diagnostics being printed.",
 ["inputs","configurations"],"matrices with one planted deviation at any position x base x threads x option flags",
 "Queries are used for printing; none is compared with a definition.",
 ["CSR.cpp"],[("parallel scans with shared flags and reductions","CSR.cpp")],None,["return values"])
prop("C23","Laplacian generator builds the exact 27-point operator",
 "For every grid extents and base, the generated matrix has exactly one entry per in-grid neighbour pair of the 27-point stencil, rows sorted, 26 on the diagonal and -1 elsewhere, correct diagonal pointers and values, is symmetric, and never writes outside its arrays.",
 ["inputs"],"all small extent triples including extents of 1, unequal extents, both bases",
 "Only cubes 7, 16 and 24 are generated.",
 ["Laplacian.cpp"],[("per-row neighbour counts by face/edge/corner case","Laplacian.cpp")],None,["generated arrays"])
prop("C24","Work partitions and prefix sums tile the whole range",
 "Inside any team, the simple and the load-balanced partition give contiguous, non-overlapping ranges that cover 0..n exactly in thread order, the balanced one giving each thread at most its fair share plus one item's weight; the collective prefix sums return to each thread its exclusive sums and make the total readable by all on return. Sizes up to the index type's range do not overflow.",
 ["inputs","configurations"],"n, weights (zeros, spikes, near the integer limit) x team sizes",
 "Implicit only in other results, for 1-4 threads and small inputs.",
 ["Utils.cpp","PrefixSum.cpp"],[("ceil division and lower_bound on prefix array","Utils.cpp"),("two-phase shared prefix sum","PrefixSum.cpp")],None,["ranges returned to each thread"])
prop("C25","Vector reordering and bulk memory helpers are exact",
 "Reordering a vector by a permutation and by its inverse are mutually inverse and place each element where defined, in place or out of place, for both element types; inverse-permutation computation and permutation checks are right for every array; parallel fill and copy affect exactly the requested bytes; vector comparison accepts exactly the vectors within tolerance.",
 ["inputs","configurations"],"lengths (0, 1, around cache lines and thread counts, large), permutations, thread counts",
 "Used on a handful of lengths without checking.",
 ["Utils.cpp","Utils.hpp"],[("parallel scatter/gather","Utils.cpp")],None,["destination buffers with canaries"])
prop("C26","Memory pool blocks never overlap and are reusable",
 "For every sequence of front and back allocations and head/tail moves that respects the pool's capacity, each returned block is aligned, lies inside the pool, does not overlap any block still live, and membership queries are true exactly for addresses in live space; after releasing everything the full capacity is available again.",
 ["histories"],"sequences of initialise, allocate, allocate-front, move head/tail, release, with sizes around the wrap point",
 "No test initialises the pool.",
 ["MemoryPool.cpp","MemoryPool.hpp"],[("circular head/tail allocation","MemoryPool.cpp")],[("head/tail","ends of the live region","MemoryPool.hpp")],["returned pointers"])
prop("C27","Parallel kernels are free of data races",
 "Construction and execution of schedules, transpose, conversion, permutation, products, splitting, symmetrisation, structural queries, prefix sums, vector helpers, the library's barriers, component search and the breadth-first and bipartite orderings contain no data race between their worker threads: every pair of conflicting accesses is ordered by fork/join, team barriers, the library's barrier, atomic operations or volatile flags, for every thread count. (The RCM ordering queues nodes optimistically from several threads by design and is excluded.)",
 ["schedules","inputs","configurations"],"kernels x matrices x team sizes x interleavings",
 "A race rarely changes the result of a small test run, and the tests run no race detector.",
 ["CSR.cpp","COO.cpp","Permute.cpp","SpMV.cpp","SymGS.cpp",LS,"PrefixSum.cpp","Utils.cpp","synk/barrier.cpp","BitVector.hpp","reordering/ConnectedComponents.cpp","reordering/RCM.cpp","reordering/BFSBipartite.cpp"],[("fork/join, team barriers and flag synchronisation","all parallel regions")],None,["ThreadSanitizer reports"])
prop("C28","Any sequence of library calls keeps a matrix consistent",
 "Any program of library operations on a set of matrices (load, generate, transpose, permute, split, symmetrise, base switch, copy, store and reload, multiply, query, reorder, schedule) gives, after every step and under changing thread counts, matrices equal to those of a plain reference model, leaves inputs of read-only operations untouched, and is free of memory errors and undefined behaviour.",
 ["programs","histories","configurations"],"random call sequences over a pool of matrices with thread count changes between calls",
 "Tests are six fixed pipelines.",
 ["CSR.cpp","CSR.hpp","Permute.cpp","SymGS.cpp","COO.cpp","reordering/RCM.cpp",LS],[("ownership flags and preserved invariants between operations","CSR.cpp")],None,["all arrays after each call; sanitizer reports"])
prop("C29","Every operation gives back the memory it took",
 "After any library operation or sequence of operations, once the caller has destroyed or released every object and array it was given, no memory allocated by the library is left unreachable. This holds on every path: error returns for damaged files, early exits for empty or already symmetric input, every option of the schedule construction, objects that are loaded, assigned or constructed a second time, and every thread count.",
 ["inputs","configurations","histories"],"operations x option paths x rejected input x reuse of objects x team sizes",
 "No test looks at memory after an operation, and a leak changes no result; most leaking paths (rejected files, unreduced schedules, reused objects) are never run.",
 ["CSR.cpp","COO.cpp","mm_io.cpp",LS,"SymGS.cpp","Utils.cpp","reordering/ConnectedComponents.cpp","reordering/RCM.cpp","reordering/BFSBipartite.cpp","synk/loadimba.hpp"],[("paired allocation and release of scratch arrays","all operations"),("release in destructors and before reuse","CSR.cpp dealloc, COO.cpp dealloc, LevelSchedule.cpp destructor")],None,["heap reachability (LeakSanitizer) after every case"])
prop("C30","Matrices and schedules work the same in the memory pool",
 "A schedule built in the shared memory pool, and operations on a matrix whose arrays lie in the pool, give exactly the results of their heap versions, wherever in the pool they land, including when allocation starts over at its beginning. Their arrays lie in live pool space and stay intact when later users fill everything that is free; blocks that were there before are never written. Scratch space is returned to the pool, the head is restored, and neither building a heap object nor destroying a pooled one moves the pool or frees pool memory.",
 ["inputs","histories","configurations"],"patterns x pool states (empty, earlier blocks, near the wrap point) x option sets x team sizes x sequences of pooled objects",
 "No test switches the pool on.",
 [LS,LH,"SymGS.cpp","CSR.cpp","CSR.hpp","MemoryPool.cpp"],[("save and restore of head and tail around scratch allocations",LS+" findLevels_, constructTaskGraph_; SymGS.cpp getSymmetricNnzPattern"),("no release of pooled arrays","CSR.cpp dealloc; LevelSchedule.cpp destructor")],
 [("head/tail","ends of the live region","MemoryPool.hpp")],["pool offsets, tagged neighbouring blocks, all arrays of the pooled objects"])
prop("C31","Independent threads may use the library at the same time",
 "Several threads of one process (their own threads, or members of a parallel region) may run library operations concurrently on matrices of their own, and read-only operations on shared matrices, each with its own team size; every thread gets the results it would get alone. Shared matrices stay unchanged, and no data race occurs between the callers. (Operations that use the process-wide barrier or memory pool, such as building schedules and level orderings, are excluded.)",
 ["schedules","programs","inputs"],"2-5 concurrent callers x random programs or read-only operations x team sizes x interleavings",
 "Every test calls the library from one thread; hidden static or shared scratch state shows only when two calls overlap.",
 ["CSR.cpp","COO.cpp","Permute.cpp","SpMV.cpp","SymGS.cpp","mm_io.cpp","Utils.cpp","PrefixSum.cpp",LS,"reordering/ConnectedComponents.cpp"],[("all scratch state is local to the call","all operations except the shared pool and the shared barrier instance")],None,["all arrays after each call of each caller; ThreadSanitizer reports"])
prop("C32","Threads get fair shares of every level",
 "In a constructed schedule every task holds rows of one dependence level, a thread has at most one task per level and works through the levels in order, and no rows are lost. In each level no thread's cost exceeds the average cost per thread by more than the most expensive row of the level, for every cost function including free rows and totals beyond 32 bits. With aggregation for vector units the excess is at most eight rows, and every thread's number of rows is a multiple of eight except the last busy thread's.",
 ["inputs","configurations"],"every pattern x cost function x thread count x barrier and aggregation options x construct overload",
 "The tests look at numeric results only; a schedule that gives all rows to one thread passes all of them.",
 [LS,LH],[("partition of each level by prefix sums of the row costs","LevelSchedule.cpp findLevels_")],[("taskBoundaries/threadBoundaries","tasks and their owner threads","LevelSchedule.hpp")],["public members of LevelSchedule after construction"])
prop("C33","Nothing depends on memory that was never written",
 "No library operation lets a branch, an address, a system call or any byte of a result it hands out depend on memory or variables that were never written, whatever freshly allocated memory happens to contain, and no operation touches bytes outside the blocks it was given or took. This holds for every operation, option, rejected file, thread count, for objects used a second time, and for pool space that was used before.",
 ["inputs","configurations","histories"],"operations x option paths x rejected input x reuse of objects and pool space x team sizes",
 "Fresh pages are zero and small blocks repeat their last content, so a missing initialisation gives right results in nearly every test run.",
 ["CSR.cpp","COO.cpp","Permute.cpp","SpMV.cpp","SymGS.cpp","mm_io.cpp","Utils.cpp","PrefixSum.cpp","MemoryPool.cpp",LS,"reordering/ConnectedComponents.cpp","reordering/RCM.cpp","reordering/BFSBipartite.cpp","synk/barrier.cpp","synk/reduce.hpp","synk/loadimba.cpp"],[("every element of scratch and result arrays is written before it is read","all operations")],None,["definedness of every bit at branches, addresses, system calls and in results (valgrind memcheck)"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(P))
